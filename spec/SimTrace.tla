------------------------------ MODULE SimTrace ------------------------------
(* Recorded simulations, loadings and estimates. *)
EXTENDS Sim, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Fails(e) ==
  CASE e.op = "sim" -> SimFails(e)
    [] e.op = "eres" -> EresFails(e)
    [] e.op = "load" -> LoadFails(e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET F == Fails(Traces[tr][l']) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
