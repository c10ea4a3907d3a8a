------------------------------- MODULE IvMC -------------------------------
(***************************************************************************)
(* The search for the normal branch as a transition system: points are     *)
(* taken one by one, and the search stops at the first one that does not   *)
(* fit.  Over all small integer data: it ends with the longest straight    *)
(* initial run, whatever the data, and never loses a fitting last point.   *)
(***************************************************************************)
EXTENDS Iv
CONSTANTS N, Y, DropLast
VARIABLES y, k, st
vars == <<y, k, st>>
X == [i \in 1..N |-> Rat(N - i)]
S == [i \in 1..N |-> Frac(1, 5)]
Yr == [i \in 1..N |-> Rat(y[i])]
Init == y \in [1..N -> 0..Y] /\ k = 2 /\ st = "run"
Next == /\ st = "run"
        /\ IF k = N THEN st' = "done" /\ k' = IF DropLast THEN k - 1 ELSE k
           ELSE IF Lin(X, Yr, S, k + 1, R1) THEN k' = k + 1 /\ st' = "run"
           ELSE st' = "done" /\ k' = k
        /\ y' = y
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Straight == \A j \in 3..k : Lin(X, Yr, S, j, R1)
Longest == st = "done" => (k = N \/ ~Lin(X, Yr, S, k + 1, R1))
Agree == st = "done" => k = RunFrom(X, Yr, S, 2, R1)
(* exact data with a kink: the branch ends exactly at the kink *)
Kink(j) == /\ \A i \in 2..(j - 1) : y[i + 1] - y[i] = y[2] - y[1]
           /\ j < N => y[j + 1] - y[j] # y[2] - y[1]
Found == st = "done" => \A j \in 2..N : (Kink(j) /\ (j < N => ~Lin(X, Yr, S, j + 1, R1))) => k = j
Ends == <>(st = "done")
=============================================================================
