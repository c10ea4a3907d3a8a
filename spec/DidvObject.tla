----------------------------- MODULE DidvObject -----------------------------
(***************************************************************************)
(* The dI/dV object as a state machine: processing (which a fit triggers   *)
(* when it has not been done) and the fits of one, two and three poles in  *)
(* any order.  half counts the half periods added to the initial time      *)
(* offset; rec[p] is the number of the fit that wrote the record of p      *)
(* poles.  FromStart is the design decision that processing starts from    *)
(* the initial offset (DidvObjectBroken.cfg drops it: a second processing  *)
(* shifts the pulse by half a period).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, PrintHist, FromStart, Flip
VARIABLES half, proc, rec, cnt, err, hist
vars == <<half, proc, rec, cnt, err, hist>>
Init == half = 0 /\ proc = FALSE /\ rec = [p \in 1..3 |-> 0] /\ cnt = 0 /\ err = FALSE /\ hist = <<>>
H(op) == hist' = Append(hist, op)
After(h) == IF Flip THEN (IF FromStart THEN 1 ELSE h + 1) ELSE 0
Process == half' = After(half) /\ proc' = TRUE /\ err' = FALSE /\ UNCHANGED <<rec, cnt>> /\ H("process")
Ready == IF proc THEN UNCHANGED half ELSE half' = After(half)
Fit(p) == /\ Ready /\ proc' = TRUE /\ err' = FALSE
          /\ cnt' = cnt + 1 /\ rec' = [rec EXCEPT ![p] = cnt + 1] /\ H("fit" \o ToString(p))
FitBad == Ready /\ proc' = TRUE /\ err' = TRUE /\ UNCHANGED <<rec, cnt>> /\ H("fitbad")
Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == Len(hist) < Depth /\ (Process \/ (\E p \in 1..3 : Fit(p)) \/ FitBad) /\ Emit
Spec == Init /\ [][Next]_vars
OnceFlipped == proc => half = IF Flip THEN 1 ELSE 0
Fitted == {i \in 1..Len(hist) : hist[i] \in {"fit1", "fit2", "fit3"}}
Available == \A p \in 1..3 : rec[p] # 0 <=> \E i \in Fitted : hist[i] = "fit" \o ToString(p)
Keeps == [][\A p \in 1..3 : rec'[p] # rec[p] => (rec[p] < rec'[p] /\ hist'[Len(hist')] = "fit" \o ToString(p))]_vars
Distinct == \A p, q \in 1..3 : (p # q /\ rec[p] # 0) => rec[p] # rec[q]
=============================================================================
