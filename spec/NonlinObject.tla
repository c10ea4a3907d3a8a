---------------------------- MODULE NonlinObject ----------------------------
(***************************************************************************)
(* The pulse-fit object as a state machine.  A fit leaves behind the       *)
(* number of poles, the meaning of the amplitude and (one pole) the rise   *)
(* time; the models of one and two poles read them.  The result of a fit   *)
(* must depend on its own arguments only: Own drops the reset of the       *)
(* amplitude's meaning by each fit (NonlinObjectBroken.cfg).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, PrintHist, Own
VARIABLES scale, rise, last, hist
vars == <<scale, rise, last, hist>>
Ops == {"f1s", "f1u", "f2s", "f2u", "f3", "f4", "norise", "badguess", "badpoles", "model"}
Init == scale = "s" /\ rise = FALSE /\ last = <<"none", "s">> /\ hist = <<>>
Sc(op) == IF op \in {"f1u", "f2u"} THEN "u" ELSE "s"
Used(op) == IF Own THEN Sc(op) ELSE IF Sc(op) = "u" THEN "u" ELSE scale
Do(op) ==
  /\ hist' = Append(hist, op)
  /\ CASE op \in {"f1s", "f1u", "f2s", "f2u", "f3", "f4"} ->
            scale' = Used(op) /\ rise' = (rise \/ op \in {"f1s", "f1u"}) /\ last' = <<op, Used(op)>>
       [] op = "model" -> UNCHANGED <<scale, rise>> /\ last' = <<op, scale>>
       [] OTHER -> scale' = "s" /\ UNCHANGED rise /\ last' = <<"refused", "s">>
Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == Len(hist) < Depth /\ (\E op \in Ops : Do(op)) /\ Emit
Spec == Init /\ [][Next]_vars
OwnArguments == last[1] \in {"f1s", "f1u", "f2s", "f2u"} => last[2] = Sc(last[1])
RiseKnown == rise <=> \E i \in 1..Len(hist) : hist[i] \in {"f1s", "f1u"}
=============================================================================
