----------------------------- MODULE InputsMC -----------------------------
(***************************************************************************)
(* Why copies are needed.  The heap is a map from cells to versions; cell  *)
(* 1 is the caller's array.  An object family keeps its input, patches its *)
(* stored array (psd[0] = infinity), recomputes a buffer at every call and *)
(* hands it out.  A pure family computes a fresh result.  "fill" is the    *)
(* routine documented to work in place.                                    *)
(*   CopyIn   the object keeps a copy of what it was given                 *)
(*   CopyOut  the object hands out a copy of its buffer                    *)
(*   InPlace  the buffer is recomputed in place, not rebound               *)
(* CallerIntact and ResultsIntact need CopyIn and (CopyOut or not InPlace);*)
(* the two broken configurations each violate one of them.                 *)
(* hist carries the families called; the harness replays every history on  *)
(* one shared set of arrays.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, PrintHist, CopyIn, CopyOut, InPlace
Objects == {"of", "noise", "didv", "iv", "nonlin", "sim"}
Pure == {"offunc", "cut", "psd", "nsmb", "utils", "energy"}
Families == Objects \union Pure \union {"fill"}
VARIABLES heap, cv, obj, buf, results, hist
vars == <<heap, cv, obj, buf, results, hist>>
Init == /\ heap = <<0>> /\ cv = 0 /\ obj = [f \in Objects |-> 0] /\ buf = [f \in Objects |-> 0]
        /\ results = {} /\ hist = <<>>
Bump(h, c) == [h EXCEPT ![c] = @ + 1]
Give(h, c) == <<c, h[c]>>
CallPure(f) == /\ heap' = Append(heap, 0) /\ results' = results \union {Give(heap', Len(heap'))}
               /\ UNCHANGED <<cv, obj, buf>>
CallFill == /\ heap' = Bump(heap, 1) /\ cv' = cv + 1 /\ UNCHANGED <<obj, buf, results>>
CallObj(f) ==
  LET h1 == IF obj[f] # 0 THEN heap ELSE IF CopyIn THEN Append(heap, heap[1]) ELSE heap
      o == IF obj[f] # 0 THEN obj[f] ELSE IF CopyIn THEN Len(h1) ELSE 1
      h2 == IF obj[f] = 0 THEN Bump(h1, o) ELSE h1               \* the patch
      h3 == IF buf[f] = 0 \/ ~InPlace THEN Append(h2, 0) ELSE Bump(h2, buf[f])
      b == IF buf[f] = 0 \/ ~InPlace THEN Len(h3) ELSE buf[f]
      h4 == IF CopyOut THEN Append(h3, h3[b]) ELSE h3
      r == IF CopyOut THEN Len(h4) ELSE b
  IN /\ heap' = h4 /\ obj' = [obj EXCEPT ![f] = o] /\ buf' = [buf EXCEPT ![f] = b]
     /\ results' = results \union {Give(h4, r)} /\ cv' = cv
Emit == IF PrintHist /\ Len(hist') = Depth THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == /\ Len(hist) < Depth
        /\ \E f \in Families : /\ IF f \in Objects THEN CallObj(f) ELSE IF f \in Pure THEN CallPure(f) ELSE CallFill
                               /\ hist' = Append(hist, f)
        /\ Emit
Spec == Init /\ [][Next]_vars
CallerIntact == heap[1] = cv
ResultsIntact == \A r \in results : heap[r[1]] = r[2]
=============================================================================
