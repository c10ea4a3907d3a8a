------------------------------- MODULE NsmbMC -------------------------------
(***************************************************************************)
(* The search for the polarity-constrained fit as an algorithm on a Gram   *)
(* matrix: amplitudes of the excluded polarity are dropped while the       *)
(* gradient at the nearest admissible point keeps them out, then again     *)
(* for the new fit, and finally whatever is still excluded is dropped until *)
(* nothing is.  Explored for every small problem below: the result is      *)
(* admissible, stationary, and the constrained optimum whenever one round  *)
(* of dropping leads to it (Constrained decides).  Negative constraints are positive ones with the    *)
(* template's sign turned, and all signs are explored.  FinalLoop = FALSE stops after the first round.      *)
(***************************************************************************)
EXTENDS Nsmb
CONSTANTS FinalLoop, Sizes, Qs
Q3 == {-3, -1, 2}
Q4 == {-3, -1, 1, 2}
Q5 == {-3, -2, -1, 1, 2}
VARIABLES prob, keep, a, phase
vars == <<prob, keep, a, phase>>
Offs == {-1, 0, 1}
Mats(n) == IF n = 2 THEN {<<<<2, x>>, <<x, 2>>>> : x \in Offs}
           ELSE {<<<<2, x, y>>, <<x, 2, z>>, <<y, z, 2>>>> : x \in Offs, y \in Offs, z \in Offs}
RM(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> Rat(m[i][j])]]
Det3(m) == IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
  ELSE m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
       + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
All == 1..Len(prob.q)
C0v == Rat(1000)
Outside(v, con) == {i \in 1..Len(v) : RIsZero(v[i]) \/ (con[i] # 0 /\ con[i] * RSgn(v[i]) < 0)}
Clip(v, S) == [i \in 1..Len(v) |-> IF i \in S THEN R0 ELSE v[i]]
Grad(v) == MatVec(prob.G, [i \in 1..Len(v) |-> RSub(prob.a0[i], v[i])])     \* negative gradient
Init == \E n \in Sizes : \E m \in Mats(n) : \E q \in [1..n -> Qs] : \E con \in [1..n -> {0, 1}] :
  /\ Det3(m) > 0
  /\ LET G == RM(m) rq == [i \in 1..n |-> Rat(q[i])] a0 == FitOn(G, rq, 1..n) IN
       /\ \A i \in 1..n : ~RIsZero(a0[i])
       /\ prob = [G |-> G, q |-> rq, con |-> con, a0 |-> a0]
       /\ keep = 1..n /\ a = a0 /\ phase = "first"
Drop(next) == LET out == Outside(a, prob.con)
                  g == Grad(Clip(a, out))
                  k == All \ (out \cap Outside(g, prob.con))
              IN keep' = k /\ a' = (IF k = keep THEN a ELSE FitOn(prob.G, prob.q, k)) /\ phase' = next
First == phase = "first" /\ Drop(IF FinalLoop THEN "second" ELSE "done")
Second == phase = "second" /\ Drop("last")
Last == /\ phase = "last"
        /\ LET k == All \ Outside(a, prob.con) IN
           IF k = keep THEN phase' = "done" /\ UNCHANGED <<keep, a>>
           ELSE keep' = k /\ a' = FitOn(prob.G, prob.q, k) /\ phase' = "last"
Next == (First \/ Second \/ Last) /\ UNCHANGED prob
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == phase = "done"
Admissible == Done => Feasible(prob.con, a)
IsStationary == Done => \A i \in keep : Near(prob.q[i], RDot(prob.G[i], a), Ten(-20))
Optimal == Done => LET c == Constrained(prob.G, prob.q, C0v, prob.con) IN
             c.ok => RLe(RAbs(RSub(Chi(C0v, prob.q, a), c.chi)), Ten(-20))
(* by enumeration of every subset of templates *)
TrueOpt == LET S == {s \in SUBSET All : Feasible(prob.con, FitOn(prob.G, prob.q, s))}
           IN CHOOSE x \in {Chi(C0v, prob.q, FitOn(prob.G, prob.q, s)) : s \in S} :
                \A s \in S : RLe(x, Chi(C0v, prob.q, FitOn(prob.G, prob.q, s)))
DecisiveIsOptimal == Done => LET c == Constrained(prob.G, prob.q, C0v, prob.con) IN c.ok => RLe(RAbs(RSub(c.chi, TrueOpt)), Ten(-20))
Ends == <>Done
=============================================================================
