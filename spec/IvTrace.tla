------------------------------ MODULE IvTrace ------------------------------
(* Recorded data sets and analyses, several analyses per data set. *)
EXTENDS Iv, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, c
vars == <<tr, l, c>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ c = <<>>
Fails(cc, e) ==
  CASE e.op \in {"ivnew", "ibnew"} -> NewFails(e)
    [] e.op = "iv" -> IvFails(cc, e)
    [] e.op = "ibis" -> IbFails(cc, e)
    [] e.op = "branch" -> BranchFails(e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET e == Traces[tr][l'] IN
           /\ c' = IF e.op \in {"ivnew", "ibnew"} THEN e ELSE c
           /\ LET F == Fails(c', e) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
