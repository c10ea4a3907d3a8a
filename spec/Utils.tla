------------------------------- MODULE Utils -------------------------------
(***************************************************************************)
(* Resampling (C16), trace utilities (C17), power/energy/offset/           *)
(* conductance estimates (C18) as exact functions of their arguments.      *)
(***************************************************************************)
EXTENDS Num

Fail(name, ok) == IF ok THEN {} ELSE {name}
AllNear(out, ref, k, scale) ==
  Len(out) = Len(ref) /\ \A i \in 1..Len(ref) : ScNear(out[i], ref[i], k, scale)
IsIntVal(r) == REq(r, RatZ(RFloor(r)))

------------------------------------------------------------- (* resampling *)
GoodFactors(fs, sg, up, down) ==
  /\ IsIntR(up) /\ IsIntR(down) /\ RGe(up, R1) /\ RGe(down, R1)
  /\ IF IsIntVal(RDiv(fs, sg)) THEN REq(up, R1) /\ REq(down, R1)
     ELSE IsIntVal(RDiv(RMul(fs, up), RMul(down, sg)))
FactorsFails(e) ==
  IF ~(IsIntVal(e.fs) /\ IsIntVal(e.sg)) THEN Fail("a rate that is not an integer raises ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"unexpected exception"}
  ELSE Fail("rate*up/down is a multiple of the square-wave frequency", GoodFactors(e.fs, e.sg, e.up, e.down))
       \cup Fail("the new rate is near the old one", RLe(RAbs(RSub(e.up, e.down)), RatZ(RDiv(e.fs, e.sg)[2])))

(* polyphase resampling: up-sampling by zero insertion, windowed-sinc      *)
(* low-pass (Kaiser window with beta 5, 10 max(up,down) bins each side,    *)
(* unit sum), down-sampling                                                *)
RECURSIVE SerI0(_, _, _)
SerI0(q, term, k) == IF k > 40 THEN R0 ELSE RAdd(term, SerI0(q, Tr(RDivI(RMul(term, q), k * k)), k + 1))
I0q(q) == SerI0(q, R1, 1)                     \* I0(x) with q = x^2/4
Kaiser(half) == LET n0 == I0q(Frac(25, 4)) IN
  TLCEval([j \in 1..(2 * half + 1) |-> Tr(RDiv(I0q(RMul(Frac(25, 4), RSub(R1, RSq(Frac(j - 1 - half, half))))), n0))])
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
MaxI2(a, b) == IF a > b THEN a ELSE b
MinI2(a, b) == IF a < b THEN a ELSE b
FirOf(mr) ==
  LET half == 10 * mr
      w == Kaiser(half)
      raw == TLCEval([j \in 1..(2 * half + 1) |->
               LET d == j - 1 - half IN
               IF d = 0 THEN w[j] ELSE Tr(RMul(w[j], RDiv(Sin(RDivI(RMulI(d, PiR), mr)), RDivI(RMulI(d, PiR), mr))))])
      s == RSum(raw)
  IN TLCEval([j \in 1..(2 * half + 1) |-> Tr(RDiv(raw[j], s))])
Resample(x, up0, down0, h, up, down) ==
  LET half == (Len(h) - 1) \div 2
      n == Len(x)
      m == (n * up + down - 1) \div down
  IN TLCEval([i \in 1..m |->
       LET c == (i - 1) * down                   \* tap index: c - (k-1) up + half
           lo == MaxI2(1, ((c - half + up - 1) \div up) + 1)
           hi == MinI2(n, ((c + half) \div up) + 1)
       IN RMulI(up, RSum(TLCEval([k \in 1..MaxI2(0, hi - lo + 1) |-> RMul(x[lo + k - 1], h[c - (lo + k - 2) * up + half + 1])])))])
ResampleFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET u0 == ToInt(e.up) d0 == ToInt(e.down) g == GcdI(u0, d0) up == u0 \div g down == d0 \div g
      h == TLCEval(FirOf(MaxI2(up, down)))
      off(r) == IF e.pad = "mean" THEN VMean(e.x[r]) ELSE R0
      ref(r) == IF up = 1 /\ down = 1 THEN e.x[r]
                ELSE LET z == TLCEval(Resample([i \in 1..Len(e.x[r]) |-> RSub(e.x[r][i], off(r))], u0, d0, h, up, down))
                     IN [i \in 1..Len(z) |-> RAdd(z[i], off(r))]
  IN Fail("rate*up/down is a multiple of the square-wave frequency", GoodFactors(e.fs, e.sg, e.up, e.down))
     \cup Fail("the new rate is near the old one", RLe(RAbs(RSub(e.up, e.down)), RatZ(RDiv(e.fs, e.sg)[2])))
     \cup Fail("new rate", RelNear(e.newfs, RDiv(RMul(e.fs, e.up), e.down), 12))
     \cup Fail("number of samples along the resampled axis",
               Len(e.out) = Len(e.x) /\ \A r \in 1..Len(e.x) : Len(e.out[r]) = (Len(e.x[r]) * up + down - 1) \div down)
     \cup Fail("band-limited resampling of every row",
               Len(e.out) = Len(e.x) /\ \A r \in 1..Len(e.x) : AllNear(e.out[r], ref(r), 9, RAdd(MaxAbs(e.x[r]), Ten(-30))))

------------------------------------------------------------------ (* shift *)
(* value at (possibly fractional, 0-based) position q of x, else fill      *)
AtPos(x, q, fill) ==
  LET n == Len(x) IN
  IF RLt(q, R0) \/ RGt(q, Rat(n - 1)) THEN fill
  ELSE LET f == RFloor(q) k == ToInt(RatZ(f)) w == RSub(q, RatZ(f))
       IN IF RIsZero(w) THEN x[k + 1] ELSE RAdd(x[k + 1], RMul(w, RSub(x[k + 2], x[k + 1])))
ShiftBy(x, num, fill) == TLCEval([j \in 1..Len(x) |-> AtPos(x, RSub(Rat(j - 1), num), fill)])
ShiftFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET ref == ShiftBy(e.x, e.num, e.fill) IN
  Fail("values move by the requested bins, vacated bins are filled",
       IF IsIntVal(e.num) THEN e.out = ref ELSE AllNear(e.out, ref, 12, RAdd(MaxAbs(e.x), RAdd(RAbs(e.fill), Ten(-300)))))

TemplateOf(t, tr, tf, k) ==
  LET p == TLCEval([i \in 1..Len(t) |-> RSub(Exp(RNeg(RDiv(t[i], tf))), Exp(RNeg(RDiv(t[i], tr))))])
      s == TLCEval(ShiftBy(p, Rat(k), R0))
      m == MaxSeq(s)
  IN TLCEval([i \in 1..Len(t) |-> RDiv(s[i], m)])
TemplateFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.t) k == (n \div 2) + e.offset ref == TemplateOf(e.t, e.taur, e.tauf, k) IN
  Fail("exponential rise and fall, unit maximum, start bin", AllNear(e.out, ref, 9, R1))
  \cup Fail("zero before the start", \A i \in 1..MinI2(n, MaxI2(0, k)) : Len(e.out) = n => RIsZero(e.out[i]))

-------------------------------------------------------- (* make_decreasing *)
(* kept points: the first and every strict running minimum                 *)
RunMin(y) == {i \in 1..Len(y) : \A j \in 1..(i - 1) : RLt(y[i], y[j])}
LineThrough(x0, y0, x1, y1, x) == RAdd(y0, RMul(RDiv(RSub(y1, y0), RSub(x1, x0)), RSub(x, x0)))
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : b >= a
Decreasing(y, x) ==
  LET K == TLCEval(RunMin(y)) last == MaxOf(K)
  IN IF Cardinality(K) = 1 THEN [i \in 1..Len(y) |-> y[1]]
     ELSE TLCEval([i \in 1..Len(y) |->
       IF i \in K THEN y[i]
       ELSE LET a == IF i > last THEN MaxOf(K \ {last}) ELSE MaxOf({j \in K : j < i})
                b == IF i > last THEN last ELSE MinOf({j \in K : j > i})
            IN LineThrough(x[a], y[a], x[b], y[b], x[i])])
DecreasingFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET ref == Decreasing(e.y, e.x) IN
  Fail("running minima kept, straight lines between them", AllNear(e.out, ref, 11, RAdd(MaxAbs(ref), MaxAbs(e.y))))
  \cup Fail("non-increasing", AllFin(e.out) /\ \A i \in 1..(Len(e.out) - 1) :
                RLe(e.out[i + 1], RAdd(e.out[i], RMul(Ten(-11), RAdd(MaxAbs(ref), MaxAbs(e.y))))))

------------------------------------------------------------ (* calc_offset *)
(* bins in the largest whole number of periods                             *)
(* (to the precision of the given rates: 1/0.1 is ten bins)                *)
FuzzFloor(r) == RFloor(RAdd(r, Ten(-9)))
OffsetBins(n, fs, sg) == LET per == RDiv(fs, sg) k == FuzzFloor(RDiv(Rat(n), per)) IN ToInt(RatZ(FuzzFloor(RMul(RatZ(k), per))))
OffsetFails(e) ==          \* e.x: one sequence of traces per remaining axis entry
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.x[1][1])
      m == IF e.didv THEN OffsetBins(n, e.fs, e.sg) ELSE n
      one(c, off, sd) ==
        LET mu == TLCEval([i \in 1..Len(e.x[c]) |-> VMean(SubSeq(e.x[c][i], 1, m))])
            a == VMean(mu)
            v == RDivI(RSum(TLCEval([i \in 1..Len(mu) |-> RSq(RSub(mu[i], a))])), Len(mu))
            sc == RAdd(MaxAbs(e.x[c][1]), RAdd(RAbs(a), Sqrt(v)))
        IN Fail("mean over the whole periods of every trace", ScNear(off, a, 11, sc))
           \cup Fail("deviation of the trace means over the root of their number",
                     IsFin(sd) /\ RGe(sd, R0) /\ ScNear(RMulI(Len(mu), RSq(sd)), v, 10, RSq(sc)))
  IN IF Len(e.off) # Len(e.x) \/ Len(e.sd) # Len(e.x) THEN {"one offset per entry of the remaining axes"}
     ELSE UNION {one(c, e.off[c], e.sd[c]) : c \in 1..Len(e.x)}

------------------------------------------------------- (* slope, negatives *)
SlopeFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET mx == IF e.rm THEN VMean(e.x) ELSE R0
      my == IF e.rm THEN VMean(e.y) ELSE R0
      dx == TLCEval([i \in 1..Len(e.x) |-> RSub(e.x[i], mx)])
      dy == TLCEval([i \in 1..Len(e.y) |-> RSub(e.y[i], my)])
      sc == RDiv(RMul(RAdd(MaxAbs(e.y), RAbs(mx)), RMulI(Len(dx), MaxAbs(dx))), RDot(dx, dx))
  IN Fail("least-squares slope", ScNear(e.out, RDiv(RDot(dx, dy), RDot(dx, dx)), 10, sc))

FillNeg(a) ==
  LET G == TLCEval({i \in 1..Len(a) : RGt(a[i], R0)}) IN
  IF G = {} THEN a
  ELSE TLCEval([i \in 1..Len(a) |->
    IF i \in G THEN a[i]
    ELSE LET L == {j \in G : j < i} H == {j \in G : j > i} IN
      IF L = {} THEN a[MinOf(H)] ELSE IF H = {} THEN a[MaxOf(L)]
      ELSE LineThrough(Rat(MaxOf(L)), a[MaxOf(L)], Rat(MinOf(H)), a[MinOf(H)], Rat(i))])
FillFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET ref == FillNeg(e.x) IN
  Fail("non-positive values replaced by linear interpolation", AllNear(e.out, ref, 12, MaxAbs(ref)))
  \cup Fail("positive values untouched", Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) : RGt(e.x[i], R0) => e.out[i] = e.x[i])
  \cup Fail("replaced in place", e.inplace = e.out)

------------------------------------------------------- (* low-pass, align *)
TanPi(r) == RDiv(Sin(RMul(PiR, r)), Cos(RMul(PiR, r)))
(* Butterworth of order 1 or 2 by the bilinear transform                   *)
ButterB(ord, K) == IF ord = 1 THEN LET d == RAdd(K, R1) IN <<RDiv(K, d), RDiv(K, d), R0>>
  ELSE LET d == RAdd(R1, RAdd(RMul(Sqrt(Rat(2)), K), RSq(K))) IN <<RDiv(RSq(K), d), RDiv(RMulI(2, RSq(K)), d), RDiv(RSq(K), d)>>
ButterA(ord, K) == IF ord = 1 THEN LET d == RAdd(K, R1) IN <<RDiv(RSub(K, R1), d), R0>>
  ELSE LET d == RAdd(R1, RAdd(RMul(Sqrt(Rat(2)), K), RSq(K))) IN
       <<RDiv(RMulI(2, RSub(RSq(K), R1)), d), RDiv(RAdd(RSub(R1, RMul(Sqrt(Rat(2)), K)), RSq(K)), d)>>
RECURSIVE FiltFrom(_, _, _, _, _, _, _, _)
FiltFrom(x, b, a, i, x1, x2, y1, y2) ==
  IF i > Len(x) THEN <<>>
  ELSE LET y == Tr(RSub(RAdd(RMul(b[1], x[i]), RAdd(RMul(b[2], x1), RMul(b[3], x2))), RAdd(RMul(a[1], y1), RMul(a[2], y2))))
       IN <<y>> \o FiltFrom(x, b, a, i + 1, x[i], x1, y, y1)
(* the filter starts in its steady state for the first value               *)
Filt(x, b, a) == FiltFrom(x, b, a, 1, x[1], x[1], x[1], x[1])
RevS(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LowPass(x, ord, cut, fs) ==
  LET K == Tr(TanPi(RDiv(cut, fs)))
      b0 == ButterB(ord, K) a0 == ButterA(ord, K)
      b == TLCEval([i \in 1..3 |-> Tr(b0[i])]) a == TLCEval([i \in 1..2 |-> Tr(a0[i])])
      pad == 3 * (ord + 1) n == Len(x)
      ext == TLCEval([i \in 1..pad |-> x[pad + 2 - i]] \o x \o [i \in 1..pad |-> x[n - i]])
      f == TLCEval(Filt(ext, b, a))
      g == TLCEval(Filt(RevS(f), b, a))
  IN SubSeq(RevS(g), pad + 1, pad + n)
LowPassFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  IF Len(e.out) # Len(e.x) THEN {"one filtered trace per trace"}
  ELSE Fail("zero-phase Butterworth low-pass", \A r \in 1..Len(e.x) :
              AllNear(e.out[r], LowPass(e.x[r], e.order, e.cut, e.fs), 8, MaxAbs(e.x[r])))

Normed(x) == LET m == VMean(x) d == TLCEval([i \in 1..Len(x) |-> RSub(x[i], m)]) t == MaxSeq(d)
             IN TLCEval([i \in 1..Len(x) |-> Tr(RDiv(d[i], t))])
(* correlation at lag s: sum_j u[j+s] v[j]                                 *)
Corr(u, v, s) == LET n == Len(u) lo == MaxI2(1, 1 - s) hi == MinI2(n, n - s) IN
  RSum(TLCEval([k \in 1..(hi - lo + 1) |-> RMul(u[lo + k - 1 + s], v[lo + k - 1])]))
AlignFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  IF Len(e.shifts) # Len(e.x) THEN {"one shift per trace"} ELSE
  LET nc == MinI2(e.ncut, Len(e.x[1]))
      f == TLCEval([r \in 1..Len(e.x) |-> Normed(LowPass(SubSeq(e.x[r], 1, nc), 1, e.cut, e.fs))])
      oneshift(r) ==
        LET c == TLCEval([k \in 1..(2 * nc - 1) |-> Corr(f[1], f[r], k - nc)])
            s == e.shifts[r]
            best == MaxSeq(c)
        IN /\ IsFin(s) /\ IsIntVal(s) /\ RLt(RAbs(s), Rat(nc))
           /\ RGe(c[ToInt(s) + nc], RSub(best, RMul(Ten(-8), RAdd(MaxAbs(c), R1))))
      aligned(r) ==
        LET n == Len(e.x[r]) s == e.shifts[r] IN
        /\ Len(e.out[r]) = n /\ Len(e.mask[r]) = n
        /\ \A j \in 1..n :
             LET q == RSub(Rat(j - 1), s) in == RGe(q, R0) /\ RLe(q, Rat(n - 1)) IN
             /\ e.mask[r][j] = ~in
             /\ in => ScNear(e.out[r][j], e.x[r][ToInt(q) + 1], 7, MaxAbs(e.x[r]))
  IN Fail("the first trace defines the origin", IsFin(e.shifts[1]) /\ RIsZero(e.shifts[1]))
     \cup Fail("shift with the largest overlap with the first trace", \A r \in 1..Len(e.x) : oneshift(r))
     \cup (IF e.justshifts THEN {} ELSE
           Fail("traces moved by their shift, bins without data masked",
                /\ Len(e.out) = Len(e.x) /\ Len(e.mask) = Len(e.x)
                /\ \A r \in 1..Len(e.x) : oneshift(r) => aligned(r)))

------------------------------------------------- (* power, energy, muon, G *)
ECharge == RMul(Rat(1602176634), Ten(-28))
Power(i, vb, rl) == RSub(RMul(i, vb), RMul(rl, RSq(i)))
PowScale(imax, vb, rl) == RAdd(RAbs(RMul(imax, vb)), RAbs(RMul(rl, RSq(imax))))
PowerFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET vb == RMul(e.qetbias, e.rsh)
      cur(r) == TLCEval([k \in 1..Len(e.x[r]) |-> RSub(e.x[r][k], e.ioff)])
  IN Fail("power i*Vb - Rload*i^2 of every sample",
          Len(e.out) = Len(e.x) /\ \A r \in 1..Len(e.x) :
            LET c == cur(r) IN AllNear(e.out[r], [k \in 1..Len(c) |-> Power(c[k], vb, e.rload)], 11,
                                       PowScale(RAdd(MaxAbs(e.x[r]), RAbs(e.ioff)), vb, e.rload)))

Trapz(y, t) == RSum(TLCEval([k \in 1..(Len(y) - 1) |-> RMul(RSub(t[k + 1], t[k]), RHalf(RAdd(y[k], y[k + 1])))]))
(* e.time: the explicit time axis, or <<>> when the rate e.fs is given     *)
EnergyFails(e) ==
  IF (~e.hasbase /\ ~e.haspre) \/ (~e.hasfs /\ ~e.hastime)
  THEN Fail("missing arguments raise ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET vb == RMul(e.qetbias, e.rsh)
      n == Len(e.x[1])
      t == IF e.hasfs THEN TLCEval([k \in 1..n |-> RDiv(Rat(k - 1), e.fs)]) ELSE e.time
      base(r) == IF e.hasbase THEN e.base[r]
                 ELSE VMean(SubSeq(e.x[r], 1, e.pre) \o (IF e.haspost THEN SubSeq(e.x[r], e.post + 1, n) ELSE <<>>))
      en(r) == LET p0 == Power(RSub(base(r), e.ioff), vb, e.rload)
               IN RDiv(Trapz(TLCEval([k \in 1..n |-> RSub(p0, Power(RSub(e.x[r][k], e.ioff), vb, e.rload))]), t), ECharge)
      sc(r) == RDiv(RMul(PowScale(RAdd(MaxAbs(e.x[r]), RAbs(e.ioff)), vb, e.rload), RAbs(RSub(t[n], t[1]))), ECharge)
  IN Fail("energy: integral of the power deficit in eV, per trace",
          Len(e.out) = Len(e.x) /\ \A r \in 1..Len(e.x) : ScNear(e.out[r], en(r), 9, sc(r)))

MuonOffFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.x)
      mx == MaxSeq(e.x)
      pk == MinOf({i \in 1..n : REq(e.x[i], mx)})
      base == VMean(SubSeq(e.x, 1, MinI2(n, e.nbase)))
      sat == VMean(SubSeq(e.x, pk, MinI2(n, pk + 199)))
      vb == RMul(e.qetbias, e.rsh)
      inorm == RDiv(vb, RAdd(e.rload, e.rn))
      i0 == RSub(inorm, RSub(sat, base))
      isc == RAdd(RAbs(inorm), RAdd(RAbs(mx), MaxAbs(e.x)))
      near(x, y, dy) == Near(x, y, RAdd(RMul(Ten(-11), isc), dy))
  IN Fail("offset: baseline minus quiescent current", near(e.ioff, RSub(base, i0), R0))
     \cup (IF ~e.full THEN {} ELSE
       Fail("quiescent current", near(e.i0, i0, R0))
       \cup Fail("resistance from the bias equation Vb = i0 (r0 + rload)",
                 IsFin(e.r0) /\ ScNear(RMul(RAdd(e.r0, e.rload), i0), vb, 9, RMul(RAdd(RAbs(e.r0), RAbs(e.rload)), isc)))
       \cup Fail("bias power i0 Vb - rload i0^2", ScNear(e.p0, Power(i0, vb, e.rload), 10, PowScale(isc, vb, e.rload))))

GFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == e.n
      D == RSub(RPow(e.tc, n), RPow(e.tb, n))
      g == RDiv(RMulI(n, RMul(e.p0, RPow(e.tc, n - 1))), D)
      gp == RDiv(RMulI(n, RPow(e.tc, n - 1)), D)
      \* derivatives of n P Tc^(n-1) / (Tc^n - Tb^n)
      gt == RSub(RDiv(RMulI(n * (n - 1), RMul(e.p0, RPow(e.tc, n - 2))), D),
                 RDiv(RMulI(n * n, RMul(e.p0, RPow(e.tc, 2 * n - 2))), RSq(D)))
      gb == RDiv(RMulI(n * n, RMul(e.p0, RMul(RPow(e.tc, n - 1), RPow(e.tb, n - 1)))), RSq(D))
      J == <<gp, gt, gb>>
      v == RSum([k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1 j == ((k - 1) % 3) + 1 IN RMul(J[i], RMul(e.cov[i][j], J[j]))])
      vs == RSum([k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1 j == ((k - 1) % 3) + 1 IN RAbs(RMul(J[i], RMul(e.cov[i][j], J[j])))])
  IN Fail("conductance n P Tc^(n-1)/(Tc^n - Tb^n)", RelNear(e.g, g, 10))
     \cup Fail("first-order error of the conductance",
          IF e.hascov THEN IsFin(e.gerr) /\ RGe(e.gerr, R0) /\ ScNear(RSq(e.gerr), v, 8, vs)
          ELSE IsFin(e.gerr) /\ RelNear(e.gerr, RAbs(RDiv(RMul(e.perr, g), e.p0)), 10))
=============================================================================
