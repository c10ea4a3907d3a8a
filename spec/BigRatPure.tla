------------------------------ MODULE BigRatPure ------------------------------
(***************************************************************************)
(* Exact integers and rationals of unbounded size for TLC (whose own       *)
(* integers are 32-bit).                                                   *)
(*                                                                         *)
(* A big integer Z is a sequence <<sgn, l0, l1, ...>>: sgn in {-1,0,1}, li *)
(* little-endian base-10^4 limbs without leading zero limbs; zero is <<0>>.*)
(* A rational R is <<Z, Z>> (numerator, positive denominator, coprime).    *)
(* A float that is not finite is recorded as <<"nan">>, <<"inf">> or       *)
(* <<"-inf">>.                                                             *)
(*                                                                         *)
(* The definitions below are complete and executable.  /verif/java/Ov.java *)
(* overrides the operators named in it with java.math.BigInteger for       *)
(* speed; module BigRatTest (run by setup) checks that the overridden and  *)
(* the pure definitions (copy BigRatPure, generated from this file) agree. *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL B == 10000

------------------------------------------------------------- (* magnitudes *)
(* magnitudes: little-endian limb sequences, <<>> is zero *)
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MTrim(_)
LOCAL MTrim(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE MCmpAt(_, _, _)
LOCAL MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF At(a, i) # At(b, i) THEN (IF At(a, i) < At(b, i) THEN -1 ELSE 1)
                   ELSE MCmpAt(a, b, i - 1)
LOCAL MCmp(a, b) == MCmpAt(a, b, MaxI(Len(a), Len(b)))

RECURSIVE MAddAt(_, _, _, _)
LOCAL MAddAt(a, b, i, c) ==
  IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == At(a, i) + At(b, i) + c
       IN <<s % B>> \o MAddAt(a, b, i + 1, s \div B)
LOCAL MAdd(a, b) == MAddAt(a, b, 1, 0)

RECURSIVE MSubAt(_, _, _, _)
LOCAL MSubAt(a, b, i, c) ==       (* requires a >= b *)
  IF i > Len(a) THEN <<>>
  ELSE LET s == At(a, i) - At(b, i) - c
       IN <<s % B>> \o MSubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
LOCAL MSub(a, b) == MTrim(MSubAt(a, b, 1, 0))

RECURSIVE MMulLimbAt(_, _, _, _)
LOCAL MMulLimbAt(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c
       IN <<s % B>> \o MMulLimbAt(a, d, i + 1, s \div B)
LOCAL MMulLimb(a, d) == IF d = 0 THEN <<>> ELSE MMulLimbAt(a, d, 1, 0)

RECURSIVE MMul(_, _)
LOCAL MMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE MTrim(MAdd(MMulLimb(a, b[1]), LET r == MMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r))

(* largest d in lo..hi with b*d <= a, by bisection *)
RECURSIVE MDigit(_, _, _, _)
LOCAL MDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMulLimb(b, mid), a) <= 0 THEN MDigit(a, b, mid, hi) ELSE MDigit(a, b, lo, mid - 1)

(* <<quotient, remainder>> of magnitudes *)
RECURSIVE MDivMod(_, _)
LOCAL MDivMod(a, b) ==
  IF MCmp(a, b) < 0 THEN << <<>>, a >>
  ELSE LET hi == MDivMod(Tail(a), b)
           cur == MTrim(<<a[1]>> \o hi[2])
           d == MDigit(cur, b, 0, B - 1)
       IN << MTrim(<<d>> \o hi[1]), MSub(cur, MMulLimb(b, d)) >>

RECURSIVE MGcd(_, _)
LOCAL MGcd(a, b) == IF b = <<>> THEN a ELSE MGcd(b, MDivMod(a, b)[2])

--------------------------------------------------------- (* big integers Z *)
LOCAL Mag(z) == Tail(z)
LOCAL MkZ(s, m) == IF m = <<>> \/ s = 0 THEN <<0>> ELSE <<s>> \o m

RECURSIVE MOf(_)
LOCAL MOf(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o MOf(i \div B)

Z(i) == IF i = 0 THEN <<0>> ELSE IF i > 0 THEN MkZ(1, MOf(i)) ELSE MkZ(-1, MOf(-i))
ZNeg(a) == MkZ(-a[1], Mag(a))
ZCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE a[1] * MCmp(Mag(a), Mag(b))
ZAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN MkZ(a[1], MAdd(Mag(a), Mag(b)))
              ELSE LET c == MCmp(Mag(a), Mag(b))
                   IN IF c = 0 THEN <<0>>
                      ELSE IF c > 0 THEN MkZ(a[1], MSub(Mag(a), Mag(b)))
                      ELSE MkZ(b[1], MSub(Mag(b), Mag(a)))
ZMul(a, b) == MkZ(a[1] * b[1], MMul(Mag(a), Mag(b)))
(* floor division *)
ZFloorDiv(a, b) ==
  LET qr == MDivMod(Mag(a), Mag(b))
      s == a[1] * b[1]
  IN IF a[1] = 0 THEN <<0>>
     ELSE IF s > 0 THEN MkZ(1, qr[1])
     ELSE IF qr[2] = <<>> THEN MkZ(-1, qr[1])
     ELSE MkZ(-1, MAdd(qr[1], <<1>>))

------------------------------------------------------------ (* rationals R *)
LOCAL MkR(n, d) ==
  IF n[1] = 0 THEN <<<<0>>, <<1, 1>>>>
  ELSE LET g == MGcd(Mag(n), Mag(d))
       IN << MkZ(n[1] * d[1], MDivMod(Mag(n), g)[1]), MkZ(1, MDivMod(Mag(d), g)[1]) >>

RatZ(z) == <<z, <<1, 1>>>>
Rat(i) == <<Z(i), <<1, 1>>>>
Frac(n, d) == MkR(Z(n), Z(d))
R0 == Rat(0)
R1 == Rat(1)
RAdd(x, y) == MkR(ZAdd(ZMul(x[1], y[2]), ZMul(y[1], x[2])), ZMul(x[2], y[2]))
RNeg(x) == <<ZNeg(x[1]), x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == MkR(ZMul(x[1], y[1]), ZMul(x[2], y[2]))
RDiv(x, y) == MkR(ZMul(x[1], y[2]), ZMul(x[2], y[1]))
RCmp(x, y) == ZCmp(ZMul(x[1], y[2]), ZMul(y[1], x[2]))
RFloor(x) == ZFloorDiv(x[1], x[2])

(* truncation to a multiple of 10^(-4k) (keeps series arguments short) *)
RECURSIVE ZPowB(_)
LOCAL ZPowB(k) == IF k = 0 THEN <<1, 1>> ELSE <<1>> \o [i \in 1..(k+1) |-> IF i = k+1 THEN 1 ELSE 0]
RTrunc(x, k) == MkR(ZFloorDiv(ZMul(x[1], ZPowB(k)), x[2]), ZPowB(k))

(* rounding (down) to about k significant limbs *)
RSig(x, k) ==
  LET sh == k - (Len(x[1]) - Len(x[2]))
  IN IF sh >= 0 THEN MkR(ZFloorDiv(ZMul(x[1], ZPowB(sh)), x[2]), ZPowB(sh))
     ELSE RatZ(ZMul(ZFloorDiv(x[1], ZMul(x[2], ZPowB(-sh))), ZPowB(-sh)))

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN R0 ELSE RAdd(s[1], RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t) == IF s = <<>> THEN R0 ELSE RAdd(RMul(s[1], t[1]), RDot(Tail(s), Tail(t)))

(* the small integer value of a rational that is one; callers know it fits *)
LOCAL MInt(m) == At(m, 1) + B * At(m, 2) + (IF Len(m) > 2 THEN B * B * At(m, 3) ELSE 0)
ToInt(x) == x[1][1] * MInt(Tail(x[1]))
=============================================================================
