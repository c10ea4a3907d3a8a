------------------------------- MODULE SimMC -------------------------------
(***************************************************************************)
(* The solution of the small-signal equations over a grid of parameters:   *)
(* it satisfies them, agrees with the documented closed forms (dI/dV as    *)
(* the inverse impedance, dI/dP as dI/dV times loop gain over i0), and the *)
(* TES noise is suppressed by the loop gain at low frequency.              *)
(* A grid point is walked parameter by parameter.                          *)
(***************************************************************************)
EXTENDS Sim
CONSTANTS Ls, Fs, Wrong
LGrid == {Frac(1, 4), Frac(9, 10), Rat(2), Rat(30)}
VARIABLES p, f, st
vars == <<p, f, st>>
Base == [rload |-> Frac(3, 250), r0 |-> Frac(1, 10), rsh |-> Frac(1, 200), beta |-> Frac(1, 2), l |-> Rat(10), L |-> RMul(Rat(4), Ten(-7)),
         tau0 |-> RMul(Rat(5), Ten(-4)), G |-> RMul(Rat(5), Ten(-10)), qb |-> RMul(Rat(16), Ten(-5))]
Init == p = Base /\ f = R0 /\ st = 0
Next == \/ st = 0 /\ st' = 1 /\ UNCHANGED f /\ \E a \in Ls : p' = [p EXCEPT !.l = a]
        \/ st = 1 /\ st' = 2 /\ UNCHANGED f /\ \E b \in {Frac(1, 50), Frac(3, 10)}, c \in {R0, Frac(1, 2), Rat(2)} : p' = [p EXCEPT !.r0 = b, !.beta = c]
        \/ st = 2 /\ st' = 3 /\ UNCHANGED p /\ \E x \in Fs : f' = Rat(x)
Spec == Init /\ [][Next]_vars
Small(z, m) == RLe(RAbs(z[1]), RMul(Ten(-20), m)) /\ RLe(RAbs(z[2]), RMul(Ten(-20), m))
Th(u) == CDiv(CSub(u[2], CScale(MC(p), u[1])), MD(p, f))                     \* temperature that goes with the current
Bal(I, v, pw) == CSub(CAdd(CMul(MA(p, f), I), CScale(MB(p), Th(<<I, pw>>))), v)   \* first equation
Solves == st = 3 => /\ Small(Bal(DIDV(p, f), CRe(R1), CRe(R0)), R1)
                    /\ Small(Bal(DIDP(p, f), CRe(R0), CRe(R1)), RInv(I0(p)))
Tau(x) == CAdd(CRe(R1), CScale(RDiv(p.tau0, RSub(R1, p.l)), IOm(x)))
ClosedV == st = 3 => LET lo == RDiv(RMul(RMul(p.r0, p.l), RAdd(Rat(2), p.beta)), RSub(R1, p.l))
                         zz == CAdd(MA(p, f), CDiv(CRe(IF Wrong THEN RNeg(lo) ELSE lo), Tau(f)))
                     IN Small(CSub(DIDV(p, f), CInv(zz)), RInv(p.rload))
ClosedP == st = 3 => LET g == RDiv(p.l, RMul(I0(p), RSub(p.l, R1)))
                     IN Small(CSub(DIDP(p, f), CMul(CDiv(CRe(g), Tau(f)), DIDV(p, f))), RInv(RMul(I0(p), p.rload)))
(* dI/dV - i0 dI/dP = -dI/dV (1 + i w tau0) / ((l - 1)(1 + i w tau_I)) *)
Suppressed == st = 3 => LET e == CSub(DIDV(p, f), CScale(I0(p), DIDP(p, f)))
                            w == CDiv(CMul(DIDV(p, f), CAdd(CRe(R1), CScale(p.tau0, IOm(f)))), CScale(RSub(R1, p.l), Tau(f)))
                        IN Small(CSub(e, w), RInv(p.rload))
=============================================================================
