---------------------------- MODULE PlotsTrace ----------------------------
(* Recorded plotting calls, several on the same pyplot state. *)
EXTENDS Plots, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Nonempty(w) == SelectSeq(w, LAMBDA p : Len(p.b) > 0 \/ \E i \in 1..Len(p.c) : Visible(p.c[i]))
Want(e) == CASE e.op = "iv" -> IvWant(e)
             [] e.op = "noise" -> NoiseWant(e)
             [] e.op = "compare" -> CompareWant(e)
             [] e.op = "sim" -> SimWant(e)
             [] e.op = "time" -> DidvTime(e)
             [] e.op = "freq" -> DidvFreq(e)
             [] e.op = "nonlin" -> NonlinWant(e)
             [] e.op = "nsmb" -> NsmbWant(e)
             [] e.op = "none" -> <<>>          \* nothing to draw: calls on quantities that are not there
Fails(e) == Clauses(e, IF e.exc # "" THEN <<>> ELSE Nonempty(Want(e)))
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET F == Fails(Traces[tr][l']) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
Spec == Init /\ [][Next]_vars
=============================================================================
