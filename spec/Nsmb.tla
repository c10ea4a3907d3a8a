-------------------------------- MODULE Nsmb --------------------------------
(***************************************************************************)
(* Fits of one shifting signal template and any number of fixed background *)
(* templates (C09-C11).  The inner product is the one of OptimumFilter     *)
(* with the zero-frequency noise taken from the first non-zero frequency;  *)
(* every fit is least squares over the templates (Rot(T,d), B_1, ..., B_m),*)
(* and a polarity constraint holds an amplitude at zero or above/below it. *)
(***************************************************************************)
EXTENDS OptimumFilter

Sg(x) == RSig(x, 12)
AllNearN(out, ref, k, scale) == Len(out) = Len(ref) /\ AllFin(out) /\ \A i \in 1..Len(ref) : ScNear(out[i], ref[i], k, scale)
RECURSIVE AscOf(_)
AscOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AscOf(S \ {x})
NCtx(e) ==
  LET n == Len(e.s)
      un == Unit(n)
      psd == TLCEval([e.psd EXCEPT ![1] = e.psd[2]])
      w == Kernel(InvPsd(psd, FALSE), un)
      m == Len(e.b)
      wt == Apply(w, e.s)
      wb == TLCEval([j \in 1..m |-> Apply(w, e.b[j])])
  IN TLCEval([ n |-> n, m |-> m, fs |-> e.fs, un |-> un, psd |-> psd, w |-> w, t |-> e.s, b |-> e.b,
       gss |-> Sg(Inner(e.fs, e.s, wt)),
       gbb |-> [i \in 1..m |-> [j \in 1..m |-> Sg(Inner(e.fs, e.b[i], wb[j]))]],
       gsb |-> [d \in 1..n |-> [j \in 1..m |-> Sg(Inner(e.fs, Rot(e.s, d - 1), wb[j]))]] ])
(* Gram matrix at delay d in 0..n-1; index 1 is the signal *)
Gram(c, d) == TLCEval([i \in 1..(c.m + 1) |-> [j \in 1..(c.m + 1) |->
  CASE i = 1 /\ j = 1 -> c.gss [] i = 1 /\ j > 1 -> c.gsb[d + 1][j - 1]
    [] i > 1 /\ j = 1 -> c.gsb[d + 1][i - 1] [] OTHER -> c.gbb[i - 1][j - 1]]])
(* c0 = <x,x>; q[d+1] = <templates at delay d, x> *)
NSig(c, x) == LET wx == Apply(c.w, x) IN TLCEval(
  [ x |-> x, c0 |-> Inner(c.fs, x, wx),
    qb |-> [j \in 1..c.m |-> Sg(Inner(c.fs, c.b[j], wx))],
    qs |-> [d \in 1..c.n |-> Sg(Inner(c.fs, Rot(c.t, d - 1), wx))] ])
Q(s, d) == <<s.qs[d + 1]>> \o s.qb

------------------------------------------------------- (* restricted fits *)
Sub(G, ix) == [i \in 1..Len(ix) |-> [j \in 1..Len(ix) |-> G[ix[i]][ix[j]]]]
(* least squares over the templates with index in S, the others at zero *)
FitOn(G, q, S) ==
  LET ix == AscOf(S)
      a == TLCEval(Gauss(Sub(G, ix), [i \in 1..Len(ix) |-> q[ix[i]]]))
      pos(i) == CHOOSE k \in 1..Len(ix) : ix[k] = i
  IN TLCEval([i \in 1..Len(q) |-> IF i \in S THEN Sg(a[pos(i)]) ELSE R0])
Chi(c0, q, a) == RSub(c0, RDot(q, a))            \* at a least-squares point
ChiAt(c0, G, q, a) == RAdd(RSub(c0, RMulI(2, RDot(q, a))), RDot(a, MatVec(G, a)))
Wrong(con, a) == {i \in 1..Len(a) : con[i] # 0 /\ con[i] * RSgn(a[i]) < 0}
Close(G, c0, con, a) == \E i \in 1..Len(a) : con[i] # 0 /\ RLe(RMul(RSq(a[i]), G[i][i]), RMul(Ten(-8), c0))
(* constrained fit where it can be decided by one round of dropping: of the *)
(* amplitudes of excluded polarity, those are dropped at whose nearest     *)
(* admissible point chi2 still falls to the excluded side (a single one    *)
(* always is).  If the fit of the others is admissible and chi2 still      *)
(* falls outwards at the dropped ones, it is the optimum by convexity.     *)
(* Without the signal (grad = FALSE) all of excluded polarity are dropped. *)
NoAns == [ok |-> FALSE, a |-> <<>>, chi |-> R0]
ConstrainedBy(G, q, c0, con, grad) ==
  LET all == 1..Len(q)
      a0 == FitOn(G, q, all)
      D == Wrong(con, a0)
      clip == [i \in all |-> IF i \in D THEN R0 ELSE a0[i]]
      down(v) == TLCEval([i \in all |-> RSub(q[i], RDot(G[i], v))])       \* where chi2 falls
      g == down(clip)
      out(i, v) == con[i] * RSgn(v[i]) < 0
      flat(i, v) == RLe(RSq(v[i]), RMul(RMul(Ten(-12), G[i][i]), c0))
      K == IF Cardinality(D) <= 1 \/ ~grad THEN D ELSE {i \in D : out(i, g)}
      a1 == IF K = {} THEN a0 ELSE FitOn(G, q, all \ K)
      con1 == [i \in all |-> IF i \in K THEN 0 ELSE con[i]]
      r == down(a1)
      sure == Cardinality(D) <= 1 \/ ((\A i \in D : ~grad \/ ~flat(i, g)) /\ (\A i \in K : out(i, r) /\ ~flat(i, r)))
      ok == ~Close(G, c0, con, a0) /\ Wrong(con1, a1) = {} /\ ~Close(G, c0, con1, a1) /\ sure
  IN IF ok THEN [ok |-> TRUE, a |-> a1, chi |-> Chi(c0, q, a1)] ELSE NoAns
Constrained(G, q, c0, con) == ConstrainedBy(G, q, c0, con, TRUE)

ATol(G, i, c0) == RMul(RMul(Ten(-14), G[i][i]), c0)
(* the answer a (recorded) at Gram matrix G: feasible, stationary on its   *)
(* support, dropped amplitudes exactly zero                                *)
Stationary(G, q, c0, a) == \A i \in 1..Len(a) : RIsZero(a[i]) \/
   RLe(RSq(RSub(q[i], RDot(G[i], a))), ATol(G, i, c0))
AllStationary(G, q, c0, a) == \A i \in 1..Len(a) : RLe(RSq(RSub(q[i], RDot(G[i], a))), ATol(G, i, c0))
Feasible(con, a) == \A i \in 1..Len(a) : con[i] = 0 \/ con[i] * RSgn(a[i]) >= 0
FreeNonzero(con, a) == \A i \in 1..Len(a) : con[i] # 0 \/ ~RIsZero(a[i])

------------------------------------------------------------------ (* setup *)
MatNear(A, B, G) == /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(B) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(B[i]) :
       IsFin(A[i][j]) /\ RLe(RSq(RSub(A[i][j], B[i][j])), RMul(RMul(Ten(-20), G[i][i]), G[j][j]))
IsInverse(A, B) == LET n == Len(B) IN Len(A) = n /\ \A i \in 1..n : Len(A[i]) = n /\ AllFin(A[i]) /\ \A j \in 1..n :
  Near(RDot(A[i], [k \in 1..n |-> B[k][j]]), IF i = j THEN R1 ELSE R0, Ten(-6))
Bits(k, m) == [i \in 1..m |-> (k \div (2 ^ (m - i))) % 2]
SetupFails(c, e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET all == <<e.s>> \o e.b
      m == c.m + 1
      dnu == RDivI(e.fs, c.n)
      scale(i) == RAdd(MaxAbs(all[i]), Ten(-300))
      f == TLCEval([i \in 1..m |-> DFT(all[i], c.un)])
      G0 == Gram(c, 0)
      plane(p, d) == [i \in 1..m |-> [j \in 1..m |-> p[i][j][d + 1]]]
  IN Fail("PSD per bin with the zero frequency replaced", Len(e.psddnu) = c.n /\ \A k \in 1..c.n : RelNear(e.psddnu[k], RMul(c.psd[k], dnu), 12))
     \cup Fail("templates: signal first, then backgrounds", e.st = all)
     \cup Fail("Fourier templates", Len(e.sf) = m /\ \A i \in 1..m : Len(e.sf[i]) = c.n /\ \A k \in 1..c.n :
             CNear(e.sf[i][k], CScale(Frac(1, c.n), f[i][k]), 12, scale(i)))
     \cup Fail("optimum filters", Len(e.phi) = m /\ \A i \in 1..m : Len(e.phi[i]) = c.n /\ \A k \in 1..c.n :
             CNear(e.phi[i][k], CScale(RInv(RMulI(c.n, RMul(c.psd[k], dnu))), CConj(f[i][k])), 11, RDiv(scale(i), RMul(c.psd[k], dnu))))
     \cup Fail("Gram matrix at zero delay", MatNear(e.Pfs, G0, G0))
     \cup Fail("Gram matrices at every delay", Len(e.P) = m /\ (\A i \in 1..m : Len(e.P[i]) = m /\ \A j \in 1..m : Len(e.P[i][j]) = c.n)
               /\ \A d \in 0..(c.n - 1) : MatNear(plane(e.P, d), Gram(c, d), G0))
     \cup Fail("background Gram matrix", MatNear(e.B, c.gbb, c.gbb))
     \cup Fail("inverse of the background Gram matrix", IsInverse(e.iB, c.gbb))
     \cup Fail("numbers of templates", e.ns = 1 /\ e.nb = c.m /\ e.lf = 500)
     \cup Fail("all combinations", e.bits = [k \in 1..(2 ^ m) |-> Bits(k - 1, m)])
IpFails(c, e) == IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET m == c.m + 1 IN
  Fail("inverse Gram matrix at every delay", Len(e.iP) = m /\ (\A i \in 1..m : Len(e.iP[i]) = m /\ \A j \in 1..m : Len(e.iP[i][j]) = c.n)
    /\ \A d \in 0..(c.n - 1) : IsInverse([i \in 1..m |-> [j \in 1..m |-> e.iP[i][j][d + 1]]], Gram(c, d)))
PtFails(c, e) == IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET S == {i \in 1..(c.m + 1) : e.mask[i] = 1}
      G == TLCEval(Sub(Gram(c, e.delay), AscOf(S)))
  IN Fail("Gram matrix of the kept templates", MatNear(e.Pt, G, G)) \cup Fail("its inverse", IsInverse(e.iPt, G))

------------------------------------------------------------------- (* fits *)
Win(e, n) == {k % n : k \in {e.win[i] : i \in 1..Len(e.win)}}
Canon(d, n) == -n < 2 * d /\ 2 * d <= n
Model(c, d, a) == LET r == Rot(c.t, d) IN
  TLCEval([i \in 1..c.n |-> RAdd(RMul(a[1], r[i]), RSum([j \in 1..c.m |-> RMul(a[j + 1], c.b[j][i])]))])
(* chi-square of a residual from its first lf Fourier bins *)
LowChi(c, r, lf) == LET X == DFT(r, c.un) k == IF lf < c.n THEN lf ELSE c.n IN
  RSum([i \in 1..k |-> RDiv(CAbs2(X[i]), RMul(RMulI(c.n, c.fs), c.psd[i]))])
Common(c, s, e, d, want) ==
  LET tol == RMul(Ten(-8), s.c0)
      r == VSub(s.x, Model(c, d, e.amp))
  IN Fail("chi2 is the residual of exactly these amplitudes", Near(e.chi2, want, tol))
     \cup Fail("low-frequency chi2", Near(e.chi2lf, LowChi(c, r, e.lf), tol))
Residual(c, s, e, d) == Fail("returned residual", AllNearN(e.resid, VSub(s.x, Model(c, d, e.amp)), 9, RAdd(MaxAbs(s.x), MaxAbs(Model(c, d, e.amp)))))

FitFails(c, x, e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET s == NSig(c, x) n == c.n
      W == Win(e, n)
      chi == TLCEval([d \in 0..(n-1) |-> IF d \in W THEN Chi(s.c0, Q(s, d), FitOn(Gram(c, d), Q(s, d), 1..(c.m + 1))) ELSE R0])
      dl == DelayOf(e.t, c.fs, n) d == dl % n
      tol == RMul(Ten(-8), s.c0)
  IN IF dl = -9999 \/ Len(e.amp) # c.m + 1 \/ ~AllFin(e.amp) THEN {"result malformed"} ELSE
     Fail("delay within the window", Canon(dl, n) /\ d \in W)
     \cup Fail("amplitudes are the least-squares ones at the delay", AllStationary(Gram(c, d), Q(s, d), s.c0, e.amp))
     \cup Fail("no other delay of the window has a smaller chi2", \A k \in W : RLe(e.chi2, RAdd(chi[k], tol)))
     \cup Common(c, s, e, d, ChiAt(s.c0, Gram(c, d), Q(s, d), e.amp)) \cup Residual(c, s, e, d)

(* parabola through three equally spaced values, vertex in steps *)
Par(y) == [a |-> RHalf(RSub(RAdd(y[1], y[3]), RMulI(2, y[2]))), b |-> RHalf(RSub(y[3], y[1])), c |-> y[2]]
QuadAt(p, t) == RAdd(RAdd(RMul(p.a, RSq(t)), RMul(p.b, t)), p.c)
(* interpolated (amp, t in bins, chi2) at bin b with neighbours           *)
InterpOK(c0, gss, ch, am, b, amp, tb, chi2, n) ==
  LET p == Par(ch) v == RNeg(RDiv(p.b, RMulI(2, p.a))) big == RAdd(R1, RSq(v)) IN
  \/ RLe(RAbs(p.a), RMul(Ten(-5), c0))
  \/ /\ IsFin(amp) /\ IsFin(tb) /\ IsFin(chi2)
     /\ \E turn \in {-1, 0, 1} : Near(tb, RAdd(Rat(b + turn * n), v), RMul(Ten(-5), big))
     \* a vertex next to its bin is reported as a delay between half a trace before and half a trace after
     /\ n > 0 /\ RLe(RAbs(v), R1) => RLe(RAbs(RMulI(2, tb)), RAdd(Rat(n), RMul(Ten(-5), big)))
     /\ Near(chi2, QuadAt(p, v), RMul(Ten(-6), RMul(c0, big)))
     /\ RLe(RMul(gss, RSq(RSub(amp, QuadAt(Par(am), v)))), RMul(Ten(-9), RMul(c0, RSq(big))))

ConFails(c, x, e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET s == NSig(c, x) n == c.n m == c.m + 1
      W == Win(e, n)
      best == TLCEval([d \in 0..(n-1) |-> Constrained(Gram(c, d), Q(s, d), s.c0, e.con)])
      dl == DelayOf(e.t, c.fs, n) d == dl % n
      G == Gram(c, d) q == Q(s, d)
      tol == RMul(Ten(-8), s.c0)
      around(b) == <<(b + n - 1) % n, b, (b + 1) % n>>
      known(b) == \A i \in 1..3 : best[around(b)[i]].ok
      chis(b) == [i \in 1..3 |-> best[around(b)[i]].chi]
      amps(b) == [i \in 1..3 |-> best[around(b)[i]].a[1]]
      \* window bin i of the trace is the delay i - n \div 2
      dly(i) == (i + n - n \div 2) % n
      WinFails(w, k) ==
        LET V == {w[i] : i \in 1..Len(w)}
            tb == DelayOf(e.wt[k], c.fs, n)
            dd == dly(tb)
            edge == tb = w[1] \/ tb = w[Len(w)]
        IN IF tb \notin V \/ ~IsFin(e.wchi[k]) \/ ~IsFin(e.wamp[k]) THEN {"window minimum outside its window"} ELSE
           Fail("window minimum is the smallest chi2 in it", \A i \in V : best[dly(i)].ok => RLe(e.wchi[k], RAdd(best[dly(i)].chi, tol)))
           \cup Fail("amplitude and chi2 at the window minimum", ~best[dd].ok \/
                (Near(e.wchi[k], best[dd].chi, tol) /\ RLe(RMul(c.gss, RSq(RSub(e.wamp[k], best[dd].a[1]))), RMul(Ten(-14), s.c0))))
           \cup Fail("interpolated window minimum",
                IF edge THEN e.iwt[k] = e.wt[k] /\ e.iwchi[k] = e.wchi[k] /\ e.iwamp[k] = e.wamp[k]
                ELSE ~known(dd) \/ InterpOK(s.c0, c.gss, chis(dd), amps(dd), tb, e.iwamp[k],
                                            IF IsFin(e.iwt[k]) THEN RMul(e.iwt[k], c.fs) ELSE e.iwt[k], e.iwchi[k], 0))
  IN IF dl = -9999 \/ Len(e.amp) # m \/ ~AllFin(e.amp) THEN {"result malformed"} ELSE
     Fail("delay within the window", Canon(dl, n) /\ d \in W)
     \cup Fail("amplitudes obey the polarity constraints", Feasible(e.con, e.amp))
     \cup Fail("non-zero amplitudes are the least-squares ones, only constrained ones are dropped",
               Stationary(G, q, s.c0, e.amp) /\ FreeNonzero(e.con, e.amp))
     \cup Fail("constrained optimum", ~best[d].ok \/ RLe(ChiAt(s.c0, G, q, e.amp), RAdd(best[d].chi, tol)))
     \cup Fail("no other delay of the window has a smaller chi2", \A k \in W : best[k].ok => RLe(e.chi2, RAdd(best[k].chi, tol)))
     \cup Common(c, s, e, d, ChiAt(s.c0, G, q, e.amp)) \cup Residual(c, s, e, d)
     \cup Fail("interpolated minimum", ~known(d) \/ InterpOK(s.c0, c.gss, chis(d), amps(d), d, e.iamp,
                   IF IsFin(e.it) THEN RMul(e.it, c.fs) ELSE e.it, e.ichi, n))
     \cup Fail("one entry per window", Len(e.wamp) = Len(e.wins) /\ Len(e.wt) = Len(e.wins) /\ Len(e.wchi) = Len(e.wins)
                /\ Len(e.iwamp) = Len(e.wins) /\ Len(e.iwt) = Len(e.wins) /\ Len(e.iwchi) = Len(e.wins))
     \cup (IF Len(e.wamp) # Len(e.wins) \/ Len(e.wt) # Len(e.wins) \/ Len(e.wchi) # Len(e.wins) THEN {}
           ELSE UNION {WinFails(e.wins[k], k) : k \in 1..Len(e.wins)})

BkgFails(c, x, e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET s == NSig(c, x)
      best == TLCEval(ConstrainedBy(c.gbb, s.qb, s.c0, e.con, FALSE))
      tol == RMul(Ten(-8), s.c0)
  IN IF Len(e.amp) # c.m \/ ~AllFin(e.amp) THEN {"result malformed"} ELSE
     LET ee == [e EXCEPT !.amp = <<R0>> \o e.amp] IN
     Fail("amplitudes obey the polarity constraints", Feasible(e.con, e.amp))
     \cup Fail("non-zero amplitudes are the least-squares ones, only constrained ones are dropped",
               Stationary(c.gbb, s.qb, s.c0, e.amp) /\ FreeNonzero(e.con, e.amp))
     \cup Fail("constrained optimum", ~best.ok \/ RLe(ChiAt(s.c0, c.gbb, s.qb, e.amp), RAdd(best.chi, tol)))
     \cup Common(c, s, ee, 0, ChiAt(s.c0, c.gbb, s.qb, e.amp))

-------------------------------------------------------------- (* templates *)
SlopeTFails(e) == IF e.exc # "" THEN {"unexpected exception"} ELSE
  Fail("slope from 0 to 1 and constant 1", Len(e.cols) = 2 /\ AllNearN(e.cols[1], [i \in 1..e.n |-> Frac(i - 1, e.n)], 13, R1)
       /\ e.cols[2] = [i \in 1..e.n |-> R1])
  \cup Fail("no shifts", Len(e.shifts) = 2 /\ \A i \in 1..2 : e.shifts[i] = <<"nan">>)
(* background pulses of a periodic trigger of period fs/rate bins          *)
FloorI(x) == ToInt(RatZ(RFloor(x)))
TtlFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.tmpl)
      per == RDiv(e.fs, e.rate)
      \* a rounded value near an integer may fall on either side of it
      near(x) == FloorI(RAdd(x, Frac(1, 2)))
      floors(x, exact) == IF (exact /\ IsIntR(x)) \/ RGt(RAbs(RSub(x, Rat(near(x)))), Ten(-9)) THEN {FloorI(x)} ELSE {near(x), near(x) - 1}
      nts == floors(RDiv(RMulI(n, e.rate), e.fs), TRUE)
      nt == IF Len(e.shifts) - 2 \in nts THEN Len(e.shifts) - 2 ELSE CHOOSE k \in nts : TRUE
      ks == floors(RHalf(RMulI(nt, per)), IsIntR(per))
      pos(i) == RMulI(i - 1, per)
      isr(v, i) == IsFin(v) /\ IsIntR(v) /\ RLe(RAbs(RSub(v, pos(i))), RAdd(Frac(1, 2), Ten(-9)))
      col(k, sh) == [j \in 1..n |-> IF j <= sh THEN R0 ELSE e.tmpl[((j - 1 - sh + k) % n) + 1]]
      sh == [i \in 1..nt |-> FloorI(e.shifts[i])]
      notched == UNION {{(sh[i] + x) % n : x \in (-e.notch)..e.notch} : i \in 1..nt}
      keep == AscOf((0..(n - 1)) \ notched)
  IN IF Len(e.shifts) # nt + 2 \/ Len(e.cols) # nt + 2 \/ Len(e.pol) # nt + 2 THEN {"one template per whole trigger period, slope and constant"} ELSE
     IF ~(\A i \in 1..nt : isr(e.shifts[i], i)) THEN {"triggers at the nearest bin of their time"} ELSE
     Fail("one template per trigger, shifted by the trigger's bins", \E k \in ks : \A i \in 1..nt : e.cols[i] = col(k, sh[i]))
     \cup Fail("slope and constant", AllNearN(e.cols[nt + 1], [i \in 1..n |-> Frac(i - 1, n)], 13, R1) /\ e.cols[nt + 2] = [i \in 1..n |-> R1])
     \cup Fail("no shift for slope and constant", RIsZero(e.shifts[nt + 1]) /\ RIsZero(e.shifts[nt + 2]))
     \cup Fail("polarity constraints", e.pol = [i \in 1..(nt + 2) |-> IF i > nt \/ ~e.con THEN 0 ELSE IF e.positive THEN 1 ELSE -1])
     \cup Fail("window: every bin outside the notches", e.win = keep)
=============================================================================
