---------------------------- MODULE NonlinTrace ----------------------------
(* Recorded pulse models and fits. *)
EXTENDS Nonlin, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Fails(e) ==
  CASE e.op = "freq" -> FreqFails(e)
    [] e.op = "time" -> TimeFails(e)
    [] e.op = "fit" -> FitFails(e)
    [] e.op = "resid" -> ResidFails(e)
    [] e.op = "bad" -> BadFails(e)
    [] e.op = "same" -> SameFails(e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET F == Fails(Traces[tr][l']) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
