---------------------------- MODULE InputsTrace ----------------------------
(* Recorded calls: digests of all live arrays before and after each. *)
EXTENDS Inputs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, mem
vars == <<tr, l, mem>>
Nothing == [k \in {} |-> ""]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ mem = Nothing
Next == /\ l < Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ LET e == Traces[tr][l'] IN
           CASE e.op = "own" -> mem' = Own(e)
             [] e.op = "call" -> /\ mem' = After(mem, e)
                                 /\ LET F == CallFails(mem, e) IN IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
             [] OTHER -> mem' = mem /\ PrintT(<<"REJECT", tr, l', {"unknown event"}>>)
Spec == Init /\ [][Next]_vars
=============================================================================
