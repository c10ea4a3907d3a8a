------------------------------ MODULE NonlinMC ------------------------------
(***************************************************************************)
(* The pulse models over a grid of time constants: the scaled amplitude is *)
(* the height of the two-pole pulse whichever time constant is longer, no  *)
(* pulse jumps at its start, the transform at zero frequency is the area,  *)
(* and the derivatives used to judge covariances agree with finite         *)
(* differences.  Wrong replaces the two-pole transform by the one with the *)
(* absolute difference of the time constants.                              *)
(***************************************************************************)
EXTENDS Nonlin
CONSTANT Wrong
VARIABLES np, p, w, sc
vars == <<np, p, w, sc>>
Taus == {Frac(1, 2), Rat(2), Rat(7)}
Ws == {R0, Frac(1, 5), Rat(-3)}
Amps == {Rat(1), Rat(-2)}
Init == np = -1 /\ p = <<>> /\ w = R0 /\ sc = FALSE
Pick == \/ np' = 0 /\ \E A \in Amps, t \in Taus : p' = <<A, t>>
        \/ np' = 1 /\ \E A \in Amps, b \in Taus : p' = <<A, b, Frac(3, 2)>>
        \/ np' = 2 /\ \E A \in Amps, a, b \in Taus : a # b /\ p' = <<A, a, b, Rat(1)>>
        \/ np' = 3 /\ \E A, B \in Amps, a, b \in Taus : a # b /\ p' = <<A, B, a, b, Rat(5), Frac(1, 3)>>
        \/ np' = 4 /\ \E A \in Amps, a, b \in Taus : a # b /\ p' = <<A, Rat(3), Frac(1, 2), a, b, Rat(5), Rat(11), R0>>
Next == np = -1 /\ Pick /\ w' \in Ws /\ sc' \in BOOLEAN
Spec == Init /\ [][Next]_vars
Tr1 == Frac(1, 4)
M(q) == LET z == Model(np, q, Tr1, sc, w) IN
  IF Wrong /\ np = 2 /\ sc /\ RGt(q[2], q[3]) THEN CNeg(z) ELSE z
Eps(k) == Ten(-k)
At(q, t) == LET T == Terms(np, q, Tr1, sc) IN RSum([m \in 1..Len(T) |-> RMul(T[m][1], Exp(RNeg(RDiv(t, T[m][2]))))])
NoJump == np \in 1..4 => RLe(RAbs(At(p, R0)), Eps(20))
Height == (np = 2 /\ sc) =>
  /\ RLe(RAbs(RSub(At(p, TPeak(p[2], p[3])), p[1])), Eps(18))
  /\ \A j \in 1..12 : RLe(RAbs(At(p, Frac(j, 2))), RAdd(RAbs(p[1]), Eps(18)))
  /\ \A j \in 1..12 : RSgn(At(p, Frac(j, 2))) = RSgn(p[1])
(* the area under a pulse that starts at t0, by its terms *)
Area == (np \in 0..4 /\ RIsZero(w)) => LET T == Terms(np, p, Tr1, sc) z == M(p) IN
  /\ RLe(RAbs(RSub(z[1], RSum([m \in 1..Len(T) |-> RMul(T[m][1], T[m][2])]))), Eps(20)) /\ RLe(RAbs(z[2]), Eps(20))
  /\ (np = 2 /\ sc) => RSgn(z[1]) = RSgn(p[1])
Step(i, h) == [p EXCEPT ![i] = RAdd(@, h)]
Hf == Eps(9)
Derivatives == np \in 0..4 => LET D == Deriv(np, p, Tr1, sc, w) IN Len(D) = NPar(np) /\
  \A i \in 1..NPar(np) : LET a == M(Step(i, Hf)) b == M(Step(i, RNeg(Hf)))
     f(c) == RDiv(RSub(a[c], b[c]), RMulI(2, Hf))
  IN \A c \in 1..2 : RLe(RAbs(RSub(D[i][c], f(c))), Eps(14))
=============================================================================
