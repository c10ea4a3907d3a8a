---------------------------- MODULE PlotsObject ----------------------------
(***************************************************************************)
(* The figures of a session.  pyplot has one current figure, the user's    *)
(* figures and those of earlier calls stay open; every plotting call must  *)
(* draw into figures of its own, close them again only if it saves them,   *)
(* and leave the others alone.  Fresh = FALSE: a call draws into whatever  *)
(* is current (PlotsObjectBroken.cfg).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, PrintHist, Fresh
VARIABLES figs, cur, hist          \* figs[k]: the calls that drew into figure k
vars == <<figs, cur, hist>>
Ops == {"user", "iv", "noise", "compare", "sim", "didv", "nonlin", "nsmb"}
Saves == {"iv", "didv"}            \* these close what they save
Init == figs = <<>> /\ cur = 0 /\ hist = <<>>
Call(op, save) ==
  LET k == Len(hist) + 1
      drawn == IF op = "user" \/ Fresh \/ cur = 0 THEN Append(figs, {k}) ELSE [figs EXCEPT ![cur] = @ \cup {k}]
  IN /\ hist' = Append(hist, <<op, save>>)
     /\ IF save /\ op \in Saves THEN figs' = figs /\ cur' = Len(figs)
        ELSE figs' = drawn /\ cur' = Len(drawn)
Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == Len(hist) < Depth /\ (\E op \in Ops, save \in BOOLEAN : (op = "user" => ~save) /\ Call(op, save)) /\ Emit
Spec == Init /\ [][Next]_vars
OneOwner == \A k \in 1..Len(figs) : \E c \in 1..Len(hist) : figs[k] = {c}
Open == cur \in 0..Len(figs)
=============================================================================
