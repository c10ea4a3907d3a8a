------------------------------ MODULE DidvTrace ------------------------------
(* Recorded evaluations, conversions, processings and fits. *)
EXTENDS Didv, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, c, d, x, have
vars == <<tr, l, c, d, x, have>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ c = <<>> /\ d = <<>> /\ x = <<>> /\ have = {}
Fails(e) ==
  CASE e.op = "z" -> ZFails(e)
    [] e.op = "sq" -> SqFails(e)
    [] e.op = "conv" -> ConvFails(e)
    [] e.op = "dnew" -> NewFails(e)
    [] e.op = "dref" -> NewFails(e)
    [] e.op = "data" -> {}
    [] e.op = "proc" -> ProcFails(c', x', e)
    [] e.op = "fit" -> FitFails(d', e)
    [] e.op = "pfit" -> PriFails(d', e)
    [] e.op = "avail" -> AvailFails(have, e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET e == Traces[tr][l'] IN
           /\ c' = IF e.op = "dnew" THEN e ELSE c
           /\ d' = IF e.op = "data" THEN e ELSE d
           /\ x' = IF e.op = "dnew" THEN (IF e.exc = "" THEN PCtx(e) ELSE <<>>) ELSE x
           /\ have' = IF e.op \in {"fit", "pfit"} /\ e.exc = "" THEN have \cup {e.np} ELSE have
           /\ LET F == Fails(e) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
