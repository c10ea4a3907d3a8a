----------------------------- MODULE NoiseTrace -----------------------------
(* Recorded calls of the noise functions and histories of the noise object. *)
EXTENDS Noise, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
vars == <<tr, l, s>>
None == [have |-> {}, T |-> <<>>, fs |-> R1, time |-> <<>>, o |-> <<>>]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = None
ObjOps == {"npsd", "ncorr", "ncsd", "nuncorr", "nslope", "nsave", "nplot"}
Fails(e) ==
  CASE e.op = "psd" -> PsdFails(e)
    [] e.op = "fold" -> FoldFails(e)
    [] e.op = "smooth" -> SmoothFails(e)
    [] e.op = "gen" -> GenFails(e)
    [] e.op = "nnew" -> NewFails(e)
    [] e.op \in ObjOps -> OpFails(s, e)
    [] OTHER -> {"unknown event"}
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET e == Traces[tr][l'] F == Fails(e) IN
           /\ IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
           /\ s' = CASE e.op = "nnew" /\ e.exc = "" -> [have |-> {}, T |-> e.o.traces, fs |-> e.fs, time |-> e.o.time, o |-> e.o]
                     [] e.op \in ObjOps -> [s EXCEPT !.have = AfterOp(s.have, e.op, NCh(s.T)), !.T = e.o.traces, !.o = e.o]
                     [] OTHER -> s
Spec == Init /\ [][Next]_vars
=============================================================================
