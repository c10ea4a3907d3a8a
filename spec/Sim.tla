-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* The noise of a TES (C28) from its small-signal equations               *)
(*   L dI/dt     = V - (RL + R0 (1 + beta)) I - (l G / I0) T              *)
(*   tau0 G dT/dt = P + I0 R0 (2 + beta) I - (1 - l) G T                  *)
(* solved at each frequency (Cramer), its sources and their sums, the     *)
(* loading from a dI/dV fit, and the estimate of the energy resolution.   *)
(***************************************************************************)
EXTENDS Num
Fail(name, ok) == IF ok THEN {} ELSE {name}
KB == RMul(Frac(1380649, 1), Ten(-29))
QE == RMul(Frac(1602176634, 1), Ten(-28))
Sh(z) == <<RSig(z[1], 8), RSig(z[2], 8)>>
IOm(f) == <<R0, RMul(RMulI(2, PiR), f)>>
I0(p) == RDiv(RMul(p.qb, p.rsh), RAdd(p.r0, p.rload))
(* entries of the small-signal matrix at frequency f *)
MA(p, f) == CAdd(CRe(RAdd(p.rload, RMul(p.r0, RAdd(R1, p.beta)))), CScale(p.L, IOm(f)))
MB(p) == RDiv(RMul(p.l, p.G), I0(p))
MC(p) == RNeg(RMul(RMul(I0(p), p.r0), RAdd(Rat(2), p.beta)))
MD(p, f) == CAdd(CRe(RMul(p.G, RSub(R1, p.l))), CScale(RMul(p.tau0, p.G), IOm(f)))
Det(p, f) == Sh(CSub(CMul(MA(p, f), MD(p, f)), CRe(RMul(MB(p), MC(p)))))
DIDV(p, f) == Sh(CDiv(MD(p, f), Det(p, f)))
DIDP(p, f) == Sh(CDiv(CRe(RNeg(MB(p))), Det(p, f)))
DIDVn(p, f) == Sh(CInv(CAdd(CRe(RAdd(p.rload, p.r0)), CScale(p.L, IOm(f)))))
DIDVs(p, f) == Sh(CInv(CAdd(CRe(p.rload), CScale(p.L, IOm(f)))))
(* sources *)
K4 == RMulI(4, KB)
VLoad(p) == RMul(K4, RMul(p.tl, p.rload))
VTes(p) == RMul(K4, RMul(RMul(p.tc, p.r0), RSq(RAdd(R1, p.beta))))
VTesN(p) == RMul(K4, RMul(p.tc, p.r0))
FTfn(p) == LET x == RDiv(p.tb, p.tc) n == p.n IN
  IF p.lg THEN RHalf(RAdd(RPow(x, n + 1), R1))
  ELSE RDiv(RMul(Frac(n, 2 * n + 1), RSub(RPow(x, 2 * n + 1), R1)), RSub(RPow(x, n), R1))
PTfn(p) == RMul(RMul(K4, RSq(p.tc)), RMul(p.G, FTfn(p)))
(* squid noise; the exponent is hn/2 *)
HPow(x, hn) == IF hn % 2 = 0 THEN RPow(x, hn \div 2) ELSE RMul(RPow(x, hn \div 2), Sqrt(x))
ISq(p, f) == RSq(RMul(p.sdc, RAdd(R1, HPow(RDiv(p.sp, f), p.hn))))
(* every predicted quantity at one frequency *)
Real1(p, f) ==
  LET v == CAbs2(DIDV(p, f))  pw == CAbs2(DIDP(p, f))
      et == CAbs2(CSub(DIDV(p, f), CScale(I0(p), DIDP(p, f))))
      vn == CAbs2(DIDVn(p, f))  vs == CAbs2(DIDVs(p, f))
      il == RMul(VLoad(p), v)  it == RMul(VTes(p), et)  ith == RMul(PTfn(p), pw)  iq == ISq(p, f)
      tot == RAdd(RAdd(il, it), RAdd(ith, iq))
      iln == RMul(VLoad(p), vn)  itn == RMul(VTesN(p), vn)  ils == RMul(VLoad(p), vs)
  IN [s_vload |-> VLoad(p), s_iload |-> il, s_pload |-> RDiv(il, pw), s_vtes |-> VTes(p), s_ites |-> it, s_ptes |-> RDiv(it, pw),
      s_ptfn |-> PTfn(p), s_itfn |-> ith, s_isquid |-> iq, s_psquid |-> RDiv(iq, pw), s_itot |-> tot, s_ptot |-> RDiv(tot, pw),
      s_iloadnormal |-> iln, s_vtesnormal |-> VTesN(p), s_itesnormal |-> itn, s_itotnormal |-> RAdd(RAdd(iln, itn), iq),
      s_iloadsc |-> ils, s_itotsc |-> RAdd(ils, iq)]
Cplx1(p, f) == [dIdV |-> DIDV(p, f), dIdP |-> DIDP(p, f), dIdVnormal |-> DIDVn(p, f), dIdVsc |-> DIDVs(p, f)]
CloseC(z, w) == CFin(z) /\ LET m == Sqrt(CAbs2(w)) IN CNear(z, w, 9, m)
(* a component not there (normal or superconducting object) is not asked for *)
SimFails(e) ==
  IF e.exc # "" THEN {"the simulation raises an exception"} ELSE
  LET k == Len(e.f)
      R == TLCEval([i \in 1..k |-> TLCEval(Real1(e.p, e.f[i]))])
      C == TLCEval([i \in 1..k |-> Cplx1(e.p, e.f[i])])
  IN UNION {Fail(q \o " follows the small-signal equations", Len(e.c[q]) = k /\ \A i \in 1..k : CloseC(e.c[q][i], C[i][q])) : q \in DOMAIN e.c}
     \cup UNION {Fail(q \o " follows from its sources", Len(e.r[q]) = k /\ \A i \in 1..k : RelNear(e.r[q][i], R[i][q], 8)) : q \in DOMAIN e.r}

(* energy resolution: 1/sigma^2 is the signal-to-noise integrated over the  *)
(* frequencies by the trapezoidal rule, in electron volts; two-sided        *)
(* spectra hold half of the power at each frequency, on either side         *)
Trap(f, y) == RSum([i \in 1..(Len(f) - 1) |-> RMul(RSub(f[i + 1], f[i]), RHalf(RAdd(y[i], y[i + 1])))])
EresFails(e) ==
  IF e.exc # "" THEN {"the estimate raises an exception"} ELSE
  LET two == \E i \in 1..Len(e.f) : RLt(e.f[i], R0)
      ord == SortSeq([i \in 1..Len(e.f) |-> i], LAMBDA a, b : RLt(e.f[a], e.f[b]))
      g == [i \in 1..Len(ord) |-> e.f[ord[i]]]
      \* signal of unit energy, two-sided: |eff / (1 + i w tau)|^2
      y == TLCEval([i \in 1..Len(ord) |-> LET k == ord[i]
              s == RDiv(RSq(e.eff), RAdd(R1, RSq(RMul(IOm(e.f[k])[2], e.tau))))
              IN RSig(RDiv(RMul(IF two THEN R1 ELSE Rat(4), s), e.S[k]), 8)])
  IN Fail("resolution is the inverse root of the integrated signal-to-noise",
          IsFin(e.out) /\ RGt(e.out, R0) /\ RelNear(RSq(RMul(e.out, QE)), RInv(Trap(g, y)), 8))
(* parameters carried over from a dI/dV record q *)
LoadFails(e) ==
  IF e.kind = "normal" /\ e.rn = <<>> THEN Fail("normal noise without normal resistance is refused with ValueError", e.exc = "ValueError")
  ELSE IF e.kind \notin {"normal", "transition", "superconducting"} THEN Fail("unknown noise type is refused with ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"loading raises an exception"}
  ELSE
  LET q == e.q  o == e.o  rl == RAdd(q.rsh, q.rp)
      low == [r0 |-> R0, beta |-> R0, l |-> R0, tau0 |-> R0, rload |-> rl]
      w == IF e.kind = "transition" THEN [r0 |-> q.r0, beta |-> q.beta, l |-> q.l, tau0 |-> q.tau0, rload |-> rl]
           ELSE IF e.kind = "normal" THEN [low EXCEPT !.r0 = e.rn[1], !.rload = RSub(rl, e.rn[1])] ELSE low
  IN Fail("parameters of the fit are carried over", REq(o.rsh, q.rsh) /\ REq(o.L, q.L) /\ REq(o.beta, w.beta) /\ REq(o.l, w.l) /\ REq(o.tau0, w.tau0)
            /\ REq(o.r0, w.r0) /\ ScNear(o.rload, w.rload, 12, rl))
     \cup Fail("other parameters are those of the call", \A a \in DOMAIN e.a : REq(o[a], e.a[a]))
     \cup Fail("thermal conductance only where there is a transition", e.kind = "transition" \/ RIsZero(o.G))
     \cup Fail("bias current divides between shunt and load", RelNear(o.i0, RDiv(RMul(o.qb, o.rsh), RAdd(w.r0, w.rload)), 9))
=============================================================================
