-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numerics shared by the specifications: vectors and complex numbers over *)
(* the exact rationals of BigRat, elementary functions by series with a    *)
(* known truncation far below every tolerance used, and comparisons of a   *)
(* recorded float (exact dyadic rational, or NaN/inf marker) with an exact *)
(* value.                                                                  *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, FiniteSets, TLC

IsFin(x) == Len(x) = 2               \* <<"nan">>, <<"inf">>, <<"-inf">> have length 1
AllFin(s) == \A i \in DOMAIN s : IsFin(s[i])

RLt(x, y) == RCmp(x, y) < 0
RLe(x, y) == RCmp(x, y) <= 0
RGt(x, y) == RCmp(x, y) > 0
RGe(x, y) == RCmp(x, y) >= 0
REq(x, y) == RCmp(x, y) = 0
RSgn(x) == x[1][1]
RIsZero(x) == x[1][1] = 0
RAbs(x) == IF x[1][1] < 0 THEN RNeg(x) ELSE x
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(y, x) THEN y ELSE x
RSq(x) == RMul(x, x)
RInv(x) == RDiv(R1, x)
RMulI(i, x) == RMul(Rat(i), x)
RDivI(x, i) == RDiv(x, Rat(i))
RHalf(x) == RDivI(x, 2)
IsIntR(x) == x[2] = <<1, 1>>

RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN R1
              ELSE IF k % 2 = 1 THEN RMul(x, RPow(x, k - 1))
              ELSE LET h == RPow(x, k \div 2) IN RMul(h, h)

Ten(k) == IF k >= 0 THEN RPow(Rat(10), k) ELSE RInv(RPow(Rat(10), -k))   \* 10^k

-------------------------------------------------------------- (* closeness *)
(* |x - y| <= tol, never true for a non-finite recorded x *)
Near(x, y, tol) == IsFin(x) /\ RLe(RAbs(RSub(x, y)), tol)
(* relative to the larger magnitude: |x-y| <= 10^-k max(|x|,|y|) *)
RelNear(x, y, k) == IsFin(x) /\ RLe(RAbs(RSub(x, y)), RMul(Ten(-k), RMax(RAbs(x), RAbs(y))))
(* relative to a given non-negative scale *)
ScNear(x, y, k, scale) == Near(x, y, RMul(Ten(-k), scale))

---------------------------------------------------------------- (* vectors *)
Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VScale(a, u) == TLCEval([i \in 1..Len(u) |-> RMul(a, u[i])])
VZero(n) == [i \in 1..n |-> R0]
VMean(u) == RDivI(RSum(u), Len(u))
VSumSq(u) == RDot(u, u)
MatVec(m, v) == TLCEval([i \in 1..Len(m) |-> RDot(m[i], v)])

RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinSeq(Tail(s)))
MaxAbs(s) == IF s = <<>> THEN R0 ELSE MaxSeq([i \in 1..Len(s) |-> RAbs(s[i])])

(* cyclic shift: the value at index i moves to index i+d *)
Rot(u, d) == LET n == Len(u) IN TLCEval([i \in 1..n |-> u[((i - 1 - d) % n) + 1]])

(* solve m x = b by Gaussian elimination with exact pivots; m is a sequence *)
(* of rows, assumed non-singular                                           *)
RECURSIVE Gauss(_, _)
Gauss(m, b) ==
  LET n == Len(b) IN
  IF n = 0 THEN <<>>
  ELSE LET p == CHOOSE i \in 1..n : ~RIsZero(m[i][1])
           pr == m[p]
           rows == TLCEval([i \in 1..(n-1) |-> IF i < p THEN i ELSE i + 1])
           fac == TLCEval([i \in 1..(n-1) |-> RDiv(m[rows[i]][1], pr[1])])
           m2 == TLCEval([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
                    RSub(m[rows[i]][j+1], RMul(fac[i], pr[j+1]))]])
           b2 == TLCEval([i \in 1..(n-1) |-> RSub(b[rows[i]], RMul(fac[i], b[p]))])
           x2 == TLCEval(Gauss(m2, b2))
           x1 == RDiv(RSub(b[p], RDot(Tail(pr), x2)), pr[1])
       IN <<x1>> \o x2
Singular(m) == LET RECURSIVE Sing(_)
                   Sing(a) == IF a = <<>> THEN FALSE
                     ELSE LET n == Len(a) IN
                       IF \A i \in 1..n : RIsZero(a[i][1]) THEN TRUE
                       ELSE LET p == CHOOSE i \in 1..n : ~RIsZero(a[i][1])
                                rows == [i \in 1..(n-1) |-> IF i < p THEN i ELSE i + 1]
                            IN Sing(TLCEval([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
                                 RSub(a[rows[i]][j+1], RMul(RDiv(a[rows[i]][1], a[p][1]), a[p][j+1]))]]))
               IN Sing(m)

---------------------------------------------------------------- (* complex *)
C0 == <<R0, R0>>
C1 == <<R1, R0>>
CI == <<R0, R1>>
CRe(x) == <<x, R0>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CConj(a) == <<a[1], RNeg(a[2])>>
CAbs2(a) == RAdd(RSq(a[1]), RSq(a[2]))
CScale(x, a) == <<RMul(x, a[1]), RMul(x, a[2])>>
CInv(a) == LET d == CAbs2(a) IN <<RDiv(a[1], d), RNeg(RDiv(a[2], d))>>
CDiv(a, b) == CMul(a, CInv(b))
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
CFin(a) == IsFin(a[1]) /\ IsFin(a[2])
(* |x - y| <= 10^-k * scale, componentwise *)
CNear(x, y, k, scale) == ScNear(x[1], y[1], k, scale) /\ ScNear(x[2], y[2], k, scale)
CRelNear(x, y, k) == CFin(x) /\ CNear(x, y, k, RAdd(RAbs(y[1]), RAbs(y[2])))

--------------------------------------------------- (* elementary functions *)
P == 8        \* working precision: 10^-32 absolute
Tr(x) == RTrunc(x, P)

(* pi to 52 digits *)
PiR == RMul(R1, <<<<1, 1058, 9375, 6939, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>,
                  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>)

RECURSIVE SerSin(_, _, _, _)
SerSin(x2, term, k, n) ==     \* sum of term * (-x2)^j / ...
  IF k > n THEN R0
  ELSE RAdd(term, SerSin(x2, Tr(RNeg(RDivI(RMul(term, x2), (2*k) * (2*k+1)))), k + 1, n))
RECURSIVE SerCos(_, _, _, _)
SerCos(x2, term, k, n) ==
  IF k > n THEN R0
  ELSE RAdd(term, SerCos(x2, Tr(RNeg(RDivI(RMul(term, x2), (2*k-1) * (2*k)))), k + 1, n))

(* argument reduction by the nearest multiple of pi/2 *)
LOCAL Quad(x) == RFloor(RAdd(RDiv(x, RHalf(PiR)), Frac(1, 2)))      \* Z
LOCAL ZMod4(z) == ToInt(RatZ(ZAdd(z, ZNeg(ZMul(Z(4), ZFloorDiv(z, Z(4)))))))
LOCAL Red(x) == Tr(RSub(x, RMul(RatZ(Quad(x)), RHalf(PiR))))
LOCAL SinR(r) == SerSin(Tr(RSq(r)), r, 1, 14)
LOCAL CosR(r) == SerCos(Tr(RSq(r)), R1, 1, 14)
Sin(x) == LET q == ZMod4(Quad(x)) r == Red(x) IN
          CASE q = 0 -> SinR(r) [] q = 1 -> CosR(r) [] q = 2 -> RNeg(SinR(r)) [] q = 3 -> RNeg(CosR(r))
Cos(x) == LET q == ZMod4(Quad(x)) r == Red(x) IN
          CASE q = 0 -> CosR(r) [] q = 1 -> RNeg(SinR(r)) [] q = 2 -> RNeg(CosR(r)) [] q = 3 -> SinR(r)
(* e^{i x} *)
Cis(x) == <<Cos(x), Sin(x)>>

RECURSIVE SerExp(_, _, _, _)
SerExp(x, term, k, n) == IF k > n THEN R0
  ELSE RAdd(term, SerExp(x, Tr(RDivI(RMul(term, x), k)), k + 1, n))
RECURSIVE SqN(_, _)
SqN(x, k) == IF k = 0 THEN x ELSE SqN(Tr(RMul(x, x)), k - 1)
(* exp for |x| <= 60, absolute error < 10^-20 for x <= 0 *)
ExpNeg(x) == SqN(SerExp(Tr(RDivI(x, 64)), R1, 1, 22), 6)   \* x in [-70, 0.7]
Exp(x) == IF RLe(x, Frac(1, 2)) THEN (IF RLt(x, Rat(-70)) THEN R0 ELSE ExpNeg(x))
          ELSE RInv(ExpNeg(RNeg(x)))

RECURSIVE SerErf(_, _, _, _)
SerErf(x2, term, k, n) == IF k > n THEN R0       \* term = (-1)^k x^(2k+1) / k!
  ELSE RAdd(RDivI(term, 2 * k + 1), SerErf(x2, Tr(RNeg(RDivI(RMul(term, x2), k + 1))), k + 1, n))
(* square root by Newton from an even power of ten near x *)
RECURSIVE NewtSqrt(_, _, _)
NewtSqrt(x, y, k) == IF k = 0 THEN y
  ELSE NewtSqrt(x, RSig(RHalf(RAdd(y, RDiv(x, y))), 8), k - 1)
Sqrt(x) == IF RIsZero(x) THEN R0
  ELSE LET e == (Len(x[1]) - Len(x[2])) IN         \* x ~ 10^(4e)
       NewtSqrt(x, RMul(Rat(10), Ten(2 * e)), 14)

(* error function, |x| <= 5 *)
(* natural logarithm of x > 0: halved or doubled into [3/4, 3/2], then 2 atanh *)
RECURSIVE SerAtanh(_, _, _, _)
SerAtanh(y2, pw, k, n) == IF k > n THEN R0 ELSE RAdd(Tr(RDivI(pw, 2 * k + 1)), SerAtanh(y2, Tr(RMul(pw, y2)), k + 1, n))
LnNear1(x) == LET y == Tr(RDiv(RSub(x, R1), RAdd(x, R1))) IN RMulI(2, SerAtanh(Tr(RSq(y)), y, 0, 25))
Ln2 == TLCEval(RMulI(2, RNeg(LnNear1(RDiv(R1, Sqrt(Rat(2)))))))
RECURSIVE Ln(_)
Ln(x) == IF RGt(x, Frac(3, 2)) THEN RAdd(Ln2, Ln(RHalf(x)))
         ELSE IF RLt(x, Frac(3, 4)) THEN RSub(Ln(RMulI(2, x)), Ln2)
         ELSE LnNear1(x)
Erf(x) == RDiv(RMulI(2, SerErf(Tr(RSq(x)), Tr(x), 0, 110)), Sqrt(PiR))
NormCdf(z) == RHalf(RAdd(R1, Erf(RDiv(z, Sqrt(Rat(2))))))
NormPdf(z) == RDiv(Exp(RNeg(RHalf(RSq(z)))), Sqrt(RMulI(2, PiR)))

-------------------------------------------------------------------- (* DFT *)
(* unit roots: Unit(n)[k+1] = e^{2 pi i k / n} *)
Unit(n) == TLCEval([k \in 1..n |-> Cis(RDivI(RMulI(2 * (k - 1), PiR), n))])
(* X[k+1] = sum_j x[j+1] e^{-2 pi i j k / n}, real input *)
DFT(x, un) == LET n == Len(x) IN
  TLCEval([k \in 1..n |->
     << RDot(x, TLCEval([j \in 1..n |-> un[(((k-1) * (j-1)) % n) + 1][1]])),
        RNeg(RDot(x, TLCEval([j \in 1..n |-> un[(((k-1) * (j-1)) % n) + 1][2]]))) >>])
(* frequency index of bin k (1-based) of an n-point DFT, numpy fftfreq order *)
FreqIx(k, n) == LET j == k - 1 IN IF j <= (n - 1) \div 2 THEN j ELSE j - n

============================================================================
