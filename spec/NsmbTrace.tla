----------------------------- MODULE NsmbTrace -----------------------------
(* Recorded set-ups and the fits made with them. *)
EXTENDS Nsmb, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, c
vars == <<tr, l, c>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ c = <<>>
Fails(cc, e) ==
  CASE e.op = "nsetup" -> SetupFails(cc, e)
    [] e.op = "nip" -> IpFails(cc, e)
    [] e.op = "npt" -> PtFails(cc, e)
    [] e.op = "nfit" -> FitFails(cc, e.x, e)
    [] e.op = "ncon" -> ConFails(cc, e.x, e)
    [] e.op = "nmb" -> BkgFails(cc, e.x, e)
    [] e.op = "nslopet" -> SlopeTFails(e)
    [] e.op = "nttl" -> TtlFails(e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET e == Traces[tr][l'] IN
           /\ c' = IF e.op = "nsetup" THEN NCtx(e) ELSE c
           /\ LET F == Fails(c', e) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
