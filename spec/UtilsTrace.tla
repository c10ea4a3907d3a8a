----------------------------- MODULE UtilsTrace -----------------------------
(* Recorded calls of qetpy.utils against Utils.                             *)
EXTENDS Utils, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Fails(e) ==
  CASE e.op = "factors" -> FactorsFails(e)
    [] e.op = "resample" -> ResampleFails(e)
    [] e.op = "shift" -> ShiftFails(e)
    [] e.op = "template" -> TemplateFails(e)
    [] e.op = "decreasing" -> DecreasingFails(e)
    [] e.op = "offset" -> OffsetFails(e)
    [] e.op = "slope" -> SlopeFails(e)
    [] e.op = "fill" -> FillFails(e)
    [] e.op = "lowpass" -> LowPassFails(e)
    [] e.op = "align" -> AlignFails(e)
    [] e.op = "power" -> PowerFails(e)
    [] e.op = "energy" -> EnergyFails(e)
    [] e.op = "muonoff" -> MuonOffFails(e)
    [] e.op = "g" -> GFails(e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET F == Fails(Traces[tr][l']) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
