------------------------- MODULE OptimumFilterTrace -------------------------
(* Recorded histories of calls on real OptimumFilter objects, and of the    *)
(* stand-alone functions, against OptimumFilter.                            *)
EXTENDS OptimumFilter, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, ctx, sig
vars == <<tr, l, ctx, sig>>

Init == tr \in 1..Len(Traces) /\ l = 0 /\ ctx = <<>> /\ sig = <<>>

(* a batch event carries one result per trace in the stack *)
BatchFails(e, F(_, _)) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.res) # Len(e.sigs) THEN {"one result per trace"}
  ELSE UNION {F(e.sigs[i], e.res[i]) : i \in 1..Len(e.sigs)}

OfampFails(x, r) == LET s == Sig(ctx, x) IN
   IF r.withdelay THEN WithDelayFails(ctx, s, r)
   ELSE NoDelayFails(ctx, s, r) \union Fail("zero shift without delay", IsFin(r.t0) /\ RIsZero(r.t0))

Fails(e) ==
  CASE e.op = "new" -> Fail("construction", e.exc = "")
    [] e.op = "update" -> Fail("update", e.exc = "")
    [] e.op = "withdelay" -> WithDelayFails(ctx, sig, e)
    [] e.op = "nodelay" -> NoDelayFails(ctx, sig, e)
    [] e.op = "piter" -> PileupIterFails(ctx, sig, e)
    [] e.op = "pstat" -> PileupStatFails(ctx, sig, e)
    [] e.op = "baseline" -> BaselineFails(ctx, sig, e)
    [] e.op = "chi0" -> Chi0Fails(sig, e)
    [] e.op = "lowf" -> LowFreqFails(ctx, sig, e)
    [] e.op = "eres" -> EResFails(ctx, e)
    [] e.op = "tres" -> TResFails(ctx, e)
    (* functions *)
    [] e.op = "f_ofamp" -> BatchFails(e, OfampFails)
                           \union (IF e.exc = "" /\ e.lgcsigma THEN EResFails(ctx, e) ELSE {})
    [] e.op = "f_pile1" -> IF e.exc # "" THEN {"unexpected exception " \o e.exc} ELSE
         LET d == DelayOf(e.t0, ctx.fs, ctx.n) IN
         IF d = -9999 \/ ~IsFin(e.amp) THEN {"delay on the sampling grid"}
         ELSE WithDelayFails(ctx, sig, [e EXCEPT !.chi2 = RSub(sig.c0, RSub(RMul(RMulI(2, e.amp), sig.a[(d % ctx.n) + 1]),
                                                        RMul(RSq(e.amp), ctx.norm)))])
    [] e.op = "f_ofamp_bad" -> Fail("argument errors raise ValueError", e.exc = "ValueError")
    [] e.op = "same" -> Fail(e.what, e.ok)
    [] e.op = "f_chi0" -> BatchFails(e, LAMBDA x, r : Chi0Fails(Sig(ctx, x), r))
    [] e.op = "f_lowf" -> BatchFails(e, LAMBDA x, r : LowFreqFails(ctx, Sig(ctx, x), r))
    (* unchanged inputs: the recorder compares copies taken before the call *)
    [] e.op = "inputs" -> Fail("the caller's arrays are left unmodified", e.same)
    (* the same quantity asked twice: exact agreement is not required, the   *)
    (* shared meaning is checked by the events themselves                    *)
    [] OTHER -> {"unknown event"}

Next ==
  /\ l < Len(Traces[tr])
  /\ l' = l + 1 /\ tr' = tr
  /\ LET e == Traces[tr][l']
         F == Fails(e)
     IN /\ IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", tr, l', F>>)
        /\ ctx' = IF e.op = "new" THEN Ctx(e) ELSE ctx
        /\ sig' = IF e.op = "new" THEN (IF e.sig = <<>> THEN sig ELSE Sig(ctx', e.sig))
                  ELSE IF e.op = "update" THEN Sig(ctx, e.sig) ELSE sig

Spec == Init /\ [][Next]_vars
============================================================================
