--------------------------- MODULE OptimumFilter ---------------------------
(***************************************************************************)
(* Reference semantics of optimum filtering.                               *)
(*                                                                         *)
(* Nothing here is a Fourier-domain filter.  A noise PSD defines the inner *)
(* product <x,y> = (1/fs) x^T W y, W the circulant matrix whose kernel is  *)
(* the inverse DFT of 1/PSD (its zero-frequency part removed for AC        *)
(* coupling), and every fit is least squares for that inner product over   *)
(* the cyclic shifts Rot(T, d) of the template:                            *)
(*    chi2(a, d) = <x - a Rot(T,d), x - a Rot(T,d)>.                       *)
(***************************************************************************)
EXTENDS Num

------------------------------------------------------------- (* setting up *)
(* 1/PSD per frequency bin, shortened to 40 significant digits *)
InvPsd(psd, ac) == TLCEval([k \in 1..Len(psd) |->
     IF (k = 1 /\ ac) \/ ~IsFin(psd[k]) THEN R0 ELSE RSig(RInv(psd[k]), 10)])

(* circulant kernel: w[j+1] = (1/n) sum_k P_k cos(2 pi j k / n) *)
Kernel(ip, un) == LET n == Len(ip) IN
  TLCEval([j \in 1..n |-> RSig(RDivI(RDot(ip, TLCEval([k \in 1..n |-> un[(((k-1)*(j-1)) % n) + 1][1]])), n), 12)])

(* W y *)
Apply(w, y) == LET n == Len(y) IN
  TLCEval([i \in 1..n |-> RDot(y, TLCEval([j \in 1..n |-> w[((i - j) % n) + 1]]))])

Inner(fs, x, wy) == RDiv(RDot(x, wy), fs)

(* everything that depends on template, PSD, sampling rate, coupling *)
Ctx(e) ==
  LET n == Len(e.tmpl)
      un == Unit(n)
      ac == e.coupling = "AC"
      ipf == InvPsd(e.psd, FALSE)
      ip == IF ac THEN TLCEval([ipf EXCEPT ![1] = R0]) ELSE ipf
      w == Kernel(ip, un)
      wf == IF ac THEN Kernel(ipf, un) ELSE w
      t == IF e.integralnorm THEN VScale(RDiv(e.fs, RSum(e.tmpl)), e.tmpl) ELSE e.tmpl
      wt == Apply(w, t)
      wft == Apply(wf, t)
      one == TLCEval([i \in 1..n |-> R1])
      wf1 == Apply(wf, one)
  IN TLCEval([ n |-> n, fs |-> e.fs, un |-> un, ip |-> ip, w |-> w, wf |-> wf, t |-> t,
       norm |-> Inner(e.fs, t, wt),                           \* <T,T>
       auto |-> TLCEval([d \in 1..n |-> Inner(e.fs, Rot(t, d - 1), wt)]),   \* <Rot(T,d-1),T>
       normf |-> Inner(e.fs, t, wft),
       bt |-> Inner(e.fs, t, wf1),                            \* <T,1> with the DC part
       bb |-> Inner(e.fs, one, wf1) ])                        \* <1,1>

(* everything that depends on the current signal: A[d+1] = <Rot(T,d), x> *)
Sig(c, x) ==
  LET wx == Apply(c.w, x)
      wfx == Apply(c.wf, x)
      one == TLCEval([i \in 1..c.n |-> R1])
  IN TLCEval([ x |-> x,
       c0 |-> Inner(c.fs, x, wx),
       (* what tolerances refer to: the ignored zero-frequency part can be  *)
       (* all there is, and leaves rounding behind                          *)
       sc |-> RAdd(Inner(c.fs, x, wx), RMul(Ten(-5), Inner(c.fs, x, wfx))),
       a |-> TLCEval([d \in 1..c.n |-> Inner(c.fs, Rot(c.t, d - 1), wx)]),
       c0f |-> Inner(c.fs, x, wfx),
       af |-> TLCEval([d \in 1..c.n |-> Inner(c.fs, Rot(c.t, d - 1), wfx)]),
       b |-> Inner(c.fs, one, wfx) ])

----------------------------------------------------- (* the allowed delays *)
(* bin i (0-based) stands for the delay i - n\div 2.  ncon = -1: no window. *)
InWindow(i, n, ncon, wc) == LET m == IF ncon > n THEN n ELSE ncon
                                s == n \div 2 - m \div 2 + wc
                            IN s <= i /\ i < s + m
Allowed(n, ncon, outside, wc) ==
  {i \in 0..(n-1) : ncon = -1 \/ (IF outside THEN ~InWindow(i, n, ncon, wc) ELSE InWindow(i, n, ncon, wc))}

BadArgs(n, e) == \/ ~(-(n \div 2) <= e.wc /\ e.wc <= (n - 1) - (n \div 2))
                 \/ (e.ncon # -1 /\ e.ncon <= 0)
                 \/ e.pdc \notin {-1, 0, 1}

---------------------------------------------------------------- (* verdicts *)
Fail(name, ok) == IF ok THEN {} ELSE {name}

(* delay (integer) of a recorded time, or -9999 when it is not on the grid *)
DelayOf(t, fs, n) == IF ~IsFin(t) THEN -9999
  ELSE LET x == RMul(t, fs)
           k == RFloor(RAdd(x, Frac(1, 2)))
       IN IF RLt(RAbs(x), Rat(4 * n + 8)) /\ RLe(RAbs(RSub(x, RatZ(k))), Ten(-6)) THEN ToInt(RatZ(k)) ELSE -9999

TolChi == 8      \* chi-squares to 1e-8 of the signal's own norm
(* amplitude tolerance squared, times norm, relative to the chi2 scale *)
AmpNear(amp, want, norm, scale) ==
  IsFin(amp) /\ RLe(RMul(RSq(RSub(amp, want)), norm), RMul(Ten(-14), scale))

(* Constrained minimisation over bins of c0 - 2 a lin[bin] + a^2 norm:     *)
(*   e: recorded result (amp, t0, chi2) and arguments (pdc, interp, ...)   *)
(*   lin[i+1]: linear term of bin i;  lo: lowest bin index delay = i - n\div 2 *)
MinFitFails(n, fs, ok, lin, norm, c0, scale, e) ==
  LET eps == RMul(Ten(-7), RMul(scale, norm))          \* on lin^2
      chi == TLCEval([i \in 1..n |-> RSub(c0, RDiv(RSq(lin[i]), norm))])
      tol == RMul(Ten(-TolChi), scale)
      strict(i) == e.pdc = 0 \/ (e.pdc * RSgn(lin[i+1]) > 0 /\ RGt(RSq(lin[i+1]), eps))
      loose(i) == e.pdc = 0 \/ e.pdc * RSgn(lin[i+1]) > 0 \/ RLe(RSq(lin[i+1]), eps)
      must == {i \in ok : strict(i)}
      may == {i \in ok : loose(i)}
      best == IF must = {} THEN R0 ELSE MinSeq(LET RECURSIVE S(_) S(q) == IF q = {} THEN <<>> ELSE
                 LET i == CHOOSE i \in q : TRUE IN <<chi[i+1]>> \o S(q \ {i}) IN S(must))
      noneOK == must = {} /\ RIsZero(e.amp) /\ RIsZero(e.t0) /\ Near(e.chi2, c0, tol)
      d == DelayOf(e.t0, fs, n)
      b == d + n \div 2
      (* parabola through the cyclic neighbours of bin i *)
      at(v, i) == v[(i % n) + 1]
      pa(v, i) == RHalf(RSub(RAdd(at(v, i+1), at(v, i-1)), RMulI(2, at(v, i))))
      pb(v, i) == RHalf(RSub(at(v, i+1), at(v, i-1)))
      flat(i) == RLe(RAbs(pa(chi, i)), RMul(Ten(-5), scale))
      amps == TLCEval([i \in 1..n |-> RDiv(lin[i], norm)])
      tv(i) == RNeg(RDiv(pb(chi, i), RMulI(2, pa(chi, i))))           \* in bins
      quad(v, i, t) == RAdd(RAdd(RMul(pa(v, i), RSq(t)), RMul(pb(v, i), t)), at(v, i))
      big(t) == RAdd(R1, RSq(t))
      interpOK(i) == \/ flat(i)
                     \/ /\ Near(RMul(e.t0, fs), RAdd(Rat(i - n \div 2), tv(i)), RMul(Ten(-5), big(tv(i))))
                        /\ Near(e.chi2, quad(chi, i, tv(i)), RMul(Ten(-6), RMul(scale, big(tv(i)))))
                        /\ RLe(RMul(norm, RSq(RSub(e.amp, quad(amps, i, tv(i))))),
                               RMul(Ten(-10), RMul(scale, RSq(big(tv(i))))))
  IN IF ~(IsFin(e.amp) /\ IsFin(e.t0) /\ IsFin(e.chi2))
     THEN IF e.interp /\ \E i \in may : flat(i) THEN {} ELSE {"finite result"}
     ELSE IF noneOK THEN {}
     ELSE IF may = {} THEN {"no allowed delay must give (0, 0, no-pulse chi2)"}
     ELSE IF e.interp THEN
       Fail("interpolated (amp, t0, chi2) is the vertex at the best allowed bin",
            \E i \in may : (must = {} \/ RLe(chi[i+1], RAdd(best, tol))) /\ interpOK(i))
     ELSE Fail("delay on the sampling grid", d # -9999)
       \union (IF d = -9999 THEN {} ELSE
               Fail("delay within the allowed set", b \in ok)
               \union (IF b \notin 0..(n-1) THEN {} ELSE
                   Fail("amplitude is the least-squares one at its delay", AmpNear(e.amp, amps[b+1], norm, scale))
                   \union Fail("chi2 is the residual at its delay", Near(e.chi2, chi[b+1], tol))))
       \union Fail("pulse direction", e.pdc = 0 \/ e.pdc * RSgn(e.amp) > 0)
       \union Fail("no allowed delay has a smaller chi2", must = {} \/ RLe(e.chi2, RAdd(best, tol)))

(* centred: bin i of the result holds delay i - n\div 2 *)
Centred(v) == LET n == Len(v) IN TLCEval([i \in 1..n |-> v[((i - 1 - n \div 2) % n) + 1]])

ExcFails(want, e) == Fail("argument errors raise ValueError", e.exc = "ValueError")

WithDelayFails(c, s, e) ==
  IF BadArgs(c.n, e) THEN ExcFails(TRUE, e)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE MinFitFails(c.n, c.fs, Allowed(c.n, e.ncon, e.outside, e.wc), Centred(s.a), c.norm, s.c0, s.sc, e)

NoDelayFails(c, s, e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET lin == s.a[(e.wc % c.n) + 1] IN
    Fail("amplitude is the least-squares one at the given delay", AmpNear(e.amp, RDiv(lin, c.norm), c.norm, s.sc))
    \union Fail("chi2 is the residual at the given delay",
                Near(e.chi2, RSub(s.c0, RDiv(RSq(lin), c.norm)), RMul(Ten(-TolChi), s.sc)))

(* second pulse, the first held at amplitude a1 and delay d1 (bins) *)
PileupIterFails(c, s, e) ==
  IF BadArgs(c.n, e) THEN ExcFails(TRUE, e)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET lin == TLCEval([d \in 1..c.n |-> RSub(s.a[d], RMul(e.a1, c.auto[((d - 1 - e.d1) % c.n) + 1]))])
           c0 == RAdd(RSub(s.c0, RMul(RMulI(2, e.a1), s.a[(e.d1 % c.n) + 1])), RMul(RSq(e.a1), c.norm))
       IN MinFitFails(c.n, c.fs, Allowed(c.n, e.ncon, e.outside, e.wc), Centred(lin), c.norm, c0,
                      RAdd(s.sc, RMul(RSq(e.a1), c.norm)), e)

(* two pulses fitted jointly, the first at delay zero *)
PileupStatFails(c, s, e) ==
  IF BadArgs(c.n, e) THEN ExcFails(TRUE, e)
  ELSE LET ok == Allowed(c.n, e.ncon, e.outside, e.wc) IN
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF ok = {} THEN                        \* no second pulse: the first alone
    Fail("no allowed delay must give the first pulse alone",
         /\ AmpNear(e.a1, RDiv(s.a[1], c.norm), c.norm, s.c0)
         /\ IsFin(e.a2) /\ RIsZero(e.a2) /\ IsFin(e.t2) /\ RIsZero(e.t2)
         /\ Near(e.chi2, RSub(s.c0, RDiv(RSq(s.a[1]), c.norm)), RMul(Ten(-TolChi), s.sc)))
  ELSE
  LET n == c.n
      del(i) == (i - n \div 2) % n
      g(i) == c.auto[del(i) + 1]
      det(i) == RSub(RSq(c.norm), RSq(g(i)))
      degen(i) == RLe(det(i), RMul(Ten(-6), RSq(c.norm)))
      chiAt(i, a1, a2) == LET A1 == s.a[1] A2 == s.a[del(i) + 1] IN
         RAdd(s.c0, RSub(RAdd(RMul(RAdd(RSq(a1), RSq(a2)), c.norm), RMul(RMulI(2, RMul(a1, a2)), g(i))),
                         RMulI(2, RAdd(RMul(a1, A1), RMul(a2, A2)))))
      minAt(i) == LET A1 == s.a[1] A2 == s.a[del(i) + 1] IN
         IF i = n \div 2 THEN RSub(s.c0, RDiv(RSq(A1), c.norm))
         ELSE RSub(s.c0, RDiv(RSub(RMul(c.norm, RAdd(RSq(A1), RSq(A2))), RMulI(2, RMul(g(i), RMul(A1, A2)))), det(i)))
      good == {i \in ok : i = n \div 2 \/ ~degen(i)}
      mins == TLCEval([i \in good |-> minAt(i)])
      sharp == \A i \in good : i = n \div 2 \/ RGe(det(i), RMul(Frac(1, 100), RSq(c.norm)))
      tol == RMul(Ten(IF sharp THEN -10 ELSE -6), s.sc)
      d == DelayOf(e.t2, c.fs, n)
      b == d + n \div 2
  IN IF \E i \in ok : i # n \div 2 /\ degen(i) THEN {}
     ELSE IF ~(IsFin(e.a1) /\ IsFin(e.a2) /\ IsFin(e.t2) /\ IsFin(e.chi2)) THEN {"finite result"}
     ELSE IF d = -9999 \/ b \notin ok THEN {"delay within the allowed set"}
     ELSE Fail("chi2 is the residual of both pulses", Near(e.chi2, chiAt(b, e.a1, e.a2), tol))
       \union Fail("amplitudes jointly minimise chi2 at the delay", Near(chiAt(b, e.a1, e.a2), mins[b], tol))
       \union Fail("no allowed delay has a smaller chi2", \A i \in good : RLe(e.chi2, RAdd(mins[i], tol)))

(* pulse + constant baseline.  The baseline is the one of the best          *)
(* unconstrained joint fit; the delay is then searched with it held fixed.  *)
(* The DC part of the PSD is used whatever the coupling.                    *)
BaselineFails(c, s, e) ==
  IF BadArgs(c.n, e) THEN ExcFails(TRUE, e)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE
  LET det == RSub(RMul(c.normf, c.bb), RSq(c.bt))
      A(d) == s.af[d]
      jamp(d) == RDiv(RSub(RMul(A(d), c.bb), RMul(c.bt, s.b)), det)
      base(d) == RDiv(RSub(s.b, RMul(jamp(d), c.bt)), c.bb)
      jchi == TLCEval([d \in 1..c.n |-> RSub(s.c0f, RAdd(RMul(jamp(d), A(d)), RMul(base(d), s.b)))])
      m == MinSeq(jchi)
      cands == {d \in 1..c.n : RLe(jchi[d], RAdd(m, RMul(Ten(-9), s.c0f)))}     \* joint minimisers (ties)
      verdict(d0) ==
        LET b == base(d0)
            lin == TLCEval([d \in 1..c.n |-> RSub(A(d), RMul(b, c.bt))])
            c0 == RAdd(RSub(s.c0f, RMulI(2, RMul(b, s.b))), RMul(RSq(b), c.bb))
        IN MinFitFails(c.n, c.fs, Allowed(c.n, e.ncon, e.outside, e.wc), Centred(lin), c.normf, c0, s.c0f, e)
  IN IF RLe(det, RMul(Ten(-6), RMul(c.normf, c.bb))) THEN {}
     ELSE IF \E d0 \in cands : verdict(d0) = {} THEN {}
     ELSE verdict(CHOOSE d0 \in cands : TRUE)

Chi0Fails(s, e) == IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE Fail("no-pulse chi2 is the signal's own norm", ScNear(e.chi2, s.c0, 9, s.sc))

(* low-frequency part of the residual.  A bin whose frequency is the cutoff  *)
(* to within rounding counts as below it only when both are exact floats;    *)
(* otherwise either answer is accepted.                                      *)
IsPow2(i) == i \in {2^k : k \in 0..20}
LowFreqFails(c, s, e) == IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE
  LET n == c.n
      X == DFT(s.x, c.un)
      S == DFT(c.t, c.un)
      f(k) == RDivI(RMulI(FreqIx(k, n), c.fs), n)
      term(k) == RMul(c.ip[k], CAbs2(CSub(X[k], CScale(e.amp, CMul(S[k], Cis(RMul(RMulI(-2, PiR), RMul(f(k), e.t0))))))))
      near(k) == k # 1 /\ RLe(RAbs(RSub(RAbs(f(k)), e.fcut)), RMul(Ten(-9), e.fcut))
      exact == \E p \in 0..20 : IsPow2(n) /\ REq(c.fs, Rat(2^p))
      in(k, loose) == IF near(k) /\ ~(exact /\ REq(RAbs(f(k)), e.fcut)) THEN loose ELSE RLe(RAbs(f(k)), e.fcut)
      val(loose) == RDiv(RSum(TLCEval([k \in 1..n |-> IF in(k, loose) THEN RSig(term(k), 12) ELSE R0])), RMulI(n, c.fs))
      scale == RAdd(s.sc, RMul(RSq(e.amp), c.norm))
  IN Fail("low-frequency chi2 is the residual's part with |f| <= cutoff",
          ScNear(e.chi2, val(TRUE), 8, scale) \/ ScNear(e.chi2, val(FALSE), 8, scale))

EResFails(c, e) == IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE Fail("energy resolution is the template norm to the power -1/2",
            IsFin(e.val) /\ RSgn(e.val) > 0 /\ RelNear(RMul(RSq(e.val), c.norm), R1, 9))

TResFails(c, e) == IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET n == c.n
           S == DFT(c.t, c.un)
           f(k) == RDivI(RMulI(FreqIx(k, n), c.fs), n)
           fisher == RDiv(RMul(RSq(e.amp), RSum(TLCEval([k \in 1..n |->
                       RMul(RSq(RMul(RMulI(2, PiR), f(k))), RMul(CAbs2(S[k]), c.ip[k]))]))), RMulI(n, c.fs))
       IN Fail("time resolution is the Fisher information of the delay to the power -1/2",
               IsFin(e.val) /\ RSgn(e.val) > 0 /\ RelNear(RMul(RSq(e.val), fisher), R1, 9))
============================================================================
