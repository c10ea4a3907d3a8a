------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Ownership of arrays.                                                    *)
(*                                                                         *)
(* The caller's arrays (traces, templates, PSDs, bias points, time axes,   *)
(* covariances, start values) and every result handed out so far are       *)
(* memory that only the caller may change.  The state is the content of    *)
(* that memory, one digest per array; the caller may bring in, change or   *)
(* forget arrays between calls; a call of the library leaves every digest  *)
(* as it was, whether it returns or raises, except the arrays the call     *)
(* documents to work on in place, and adds what it returned.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the caller's own step: the memory is whatever he makes it *)
Own(e) == e.set

Kept(mem, e) == {k \in DOMAIN mem : k \notin {e.may[i] : i \in DOMAIN e.may}}

CallFails(mem, e) ==
  UNION {LET same == k \in DOMAIN e.now /\ e.now[k] = mem[k] IN
         IF same THEN {} ELSE {e.fn \o " leaves alone: " \o k} : k \in Kept(mem, e)}
  \union (IF DOMAIN mem \subseteq DOMAIN e.now THEN {} ELSE {"every array is still there"})

(* what the memory should be after the call: as before, plus the results *)
After(mem, e) == e.now
=============================================================================
