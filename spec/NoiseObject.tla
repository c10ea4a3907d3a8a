----------------------------- MODULE NoiseObject -----------------------------
(***************************************************************************)
(* The noise object as a state machine: which results it holds, and which  *)
(* version of the traces each was computed from.  The real object keeps    *)
(* the cross-spectral density and derives the noise split from it without  *)
(* recomputing; Fresh says that no result of earlier traces is ever shown. *)
(* ResetOnSlope is the design decision it rests on (NoiseObjectBroken.cfg  *)
(* drops it and must violate Fresh).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, PrintHist, ResetOnSlope, NChan
Results == {"psd", "corr", "csd", "uncorr"}
VARIABLES ver, res, hist, err
vars == <<ver, res, hist, err>>
None == 0
Init == ver = 1 /\ res = [r \in Results |-> None] /\ hist = <<>> /\ err = FALSE
H(op) == hist' = Append(hist, op)
Psd == res' = [res EXCEPT !.psd = ver] /\ err' = FALSE /\ UNCHANGED ver /\ H("npsd")
Multi(r) == IF NChan = 1 THEN err' = TRUE /\ UNCHANGED res ELSE err' = FALSE /\ res' = r
Corr == Multi([res EXCEPT !.corr = ver]) /\ UNCHANGED ver /\ H("ncorr")
Csd == Multi([res EXCEPT !.csd = ver]) /\ UNCHANGED ver /\ H("ncsd")
Unc == LET c == IF res.csd = None THEN ver ELSE res.csd
       IN Multi([res EXCEPT !.csd = c, !.uncorr = c]) /\ UNCHANGED ver /\ H("nuncorr")
Slope == /\ ver' = ver + 1 /\ err' = FALSE /\ H("nslope")
         /\ res' = IF ResetOnSlope THEN [r \in Results |-> None] ELSE res
Save == UNCHANGED <<ver, res>> /\ err' = FALSE /\ H("nsave")
Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == Len(hist) < Depth /\ (Psd \/ Corr \/ Csd \/ Unc \/ Slope \/ Save) /\ Emit
Spec == Init /\ [][Next]_vars
Fresh == \A r \in Results : res[r] \in {None, ver}
SplitNeedsCsd == res.uncorr # None => res.csd = res.uncorr
OneChannel == NChan = 1 => \A r \in {"corr", "csd", "uncorr"} : res[r] = None
=============================================================================
