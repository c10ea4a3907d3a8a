------------------------------ MODULE OFObject ------------------------------
(***************************************************************************)
(* The optimum-filter object as a state machine.                           *)
(*                                                                         *)
(* Abstractly the object is its current trace: a query answers from it.    *)
(* Concretely it fills caches lazily and an update clears the per-trace    *)
(* ones.  Each cache is modelled by the trace it was computed from (None   *)
(* when empty); a query's answer is modelled by the set of traces that any *)
(* cache it read came from.  Coherent: no query ever mixes in a trace      *)
(* other than the current one.  ClearOnUpdate is the design decision the   *)
(* property rests on (the config OFObjectBroken.cfg drops one cache from   *)
(* it and must violate Coherent: the invariant is not vacuous).            *)
(*                                                                         *)
(* hist carries the operation names; TLC enumerates every history up to    *)
(* Depth and prints it, and the harness replays each one on the real       *)
(* object (module OptimumFilterTrace judges the answers).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, PrintHist, ClearOnUpdate

None == 0
Caches == {"v", "chi0", "filt_td", "chit", "amps", "chi"}
Queries == {"nodelay", "withdelay", "piter", "pstat", "baseline", "chi0", "lowf", "eres", "tres"}

(* which caches each query fills (in order) and reads *)
Fills == [nodelay |-> <<"chi0">>, withdelay |-> <<"filt_td", "chi0", "chit", "chi", "amps">>,
          piter |-> <<"filt_td", "chi0">>, pstat |-> <<"filt_td", "chi0">>, baseline |-> <<>>,
          chi0 |-> <<"chi0">>, lowf |-> <<>>, eres |-> <<>>, tres |-> <<>>]
Reads == [nodelay |-> {"v", "chi0"}, withdelay |-> {"chi", "amps", "chi0"}, piter |-> {"filt_td", "chi0"},
          pstat |-> {"filt_td", "chi0"}, baseline |-> {"v"}, chi0 |-> {"chi0"}, lowf |-> {"v"}, eres |-> {}, tres |-> {}]
(* what a cache is computed from when it is filled *)
From == [chi0 |-> {"v"}, filt_td |-> {"v"}, chit |-> {"filt_td"}, chi |-> {"chi0", "chit"}, amps |-> {"filt_td"}]

VARIABLES cur, cache, ans, hist
vars == <<cur, cache, ans, hist>>

Init == /\ cur = 1
        /\ cache = [c \in Caches |-> IF c = "v" THEN {1} ELSE {}]
        /\ ans = {} /\ hist = <<>>

RECURSIVE Fill(_, _)
Fill(ca, q) == IF q = <<>> THEN ca
  ELSE LET c == Head(q) IN
       Fill(IF ca[c] # {} THEN ca ELSE [ca EXCEPT ![c] = UNION {ca[d] : d \in From[c]}], Tail(q))

Query(q) == /\ cache' = Fill(cache, Fills[q])
            /\ ans' = UNION {cache'[c] : c \in Reads[q]}
            /\ cur' = cur
            /\ hist' = Append(hist, q)
Update == /\ cur' = cur + 1
          /\ cache' = [c \in Caches |-> IF c = "v" THEN {cur + 1} ELSE IF c \in ClearOnUpdate THEN {} ELSE cache[c]]
          /\ ans' = {} /\ hist' = Append(hist, "update")

Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == Len(hist) < Depth /\ (Update \/ \E q \in Queries : Query(q)) /\ Emit
Spec == Init /\ [][Next]_vars

(* abstract state machine (memoryless) that the object must refine *)
Coherent == ans \subseteq {cur}
CachesCoherent == \A c \in Caches : cache[c] \subseteq {cur}
=============================================================================
