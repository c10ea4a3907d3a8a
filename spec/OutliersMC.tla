----------------------------- MODULE OutliersMC -----------------------------
(***************************************************************************)
(* The outlier iterations as state machines over every small data set:     *)
(* one step of the iteration per transition.  Checked: both terminate, the *)
(* sigma clip never keeps a single point, trimming only ever removes, and  *)
(* results do not depend on the units of the data.                         *)
(***************************************************************************)
EXTENDS Outliers
CONSTANTS N, K, Algo

Cuts == {Frac(1, 1), Frac(3, 2), Frac(2, 1), Frac(5, 2)}
Targets == {Frac(1, 20), R0, Frac(1, 2), Frac(-1, 10)}
RECURSIVE Mono(_, _)
Mono(n, lo) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o t : t \in Mono(n - 1, k)} : k \in lo..K}

VARIABLES data, par, s, last
vars == <<data, par, s, last>>
RD(d) == TLCEval([i \in 1..Len(d) |-> Rat(d[i])])
Scaled(d) == TLCEval([i \in 1..Len(d) |-> Rat(4 * d[i] - 8)])

Init == /\ \E n \in 2..N : data \in Mono(n, 0)
        /\ par \in (IF Algo = "clip" THEN Cuts ELSE Targets)
        /\ s = (IF Algo = "clip" THEN ClipInit(RD(data)) ELSE TrimInit(RD(data)))
        /\ last = {}
Step == /\ s.st = "run"
        /\ s' = IF Algo = "clip"
                THEN [ClipStep(RD(data), par, ClipCutoff(RD(data), Rat(1000)), TRUE, s) EXCEPT !.n = 0]
                ELSE TrimStep(RD(data), par, 20, R0, s)
        /\ last' = s.kept
        /\ UNCHANGED <<data, par>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Terminates == <>(s.st # "run")
ClipKeepsTwo == Algo = "clip" => (s.st = "done" => Cardinality(s.kept) >= 2)
ClipConsistent == Algo = "clip" /\ s.st = "done" => s.m = VMean(Pick(RD(data), s.kept)) /\ s.v = Var(Pick(RD(data), s.kept))
TrimShrinks == Algo = "trim" /\ last # {} => s.kept \subseteq last
TrimReached == Algo = "trim" /\ s.st = "done" /\ s.n < 20 => SkewCmp(Pick(RD(data), s.kept), par) # "gt"
(* the mask does not depend on offset and (positive) gain of the data *)
UnitFree == s.st \in {"done", "all"} =>
   IF Algo = "clip" THEN LET r == ClipRun(Scaled(data), par, Rat(1000), TRUE) IN r.st = "close" \/ r.kept = s.kept
   ELSE LET r == TrimRun(Scaled(data), par, 20, R0) IN r.st = "close" \/ r.kept = s.kept
=============================================================================
