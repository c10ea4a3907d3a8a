---------------------------- MODULE OutliersTrace ----------------------------
(* Recorded calls of the cut functions against Outliers.                    *)
EXTENDS Outliers, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Fails(e) ==
  CASE e.op = "iterstat" -> IterstatFails(e)
    [] e.op = "unbiased" -> UnbFails(e)
    [] e.op = "rmout" -> RmOutFails(e)
    [] e.op = "itercov" -> ItercovFails(e)
    [] e.op = "valueerror" -> Fail(e.what, e.exc = "ValueError")
    [] e.op = "muon" -> MuonFails(e)
    [] e.op = "autocuts" -> AutoFails(e)
    [] e.op = "symm" -> SymmFails(e)
    [] e.op = "same" -> Fail(e.what, e.ok)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET F == Fails(Traces[tr][l']) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
