------------------------------ MODULE Outliers ------------------------------
(***************************************************************************)
(* Outlier rejection and automatic cuts.                                   *)
(*                                                                         *)
(* Each algorithm is an iteration given by one-step operators (ClipStep,   *)
(* TrimStep, CovStep) over an explicit state, run to completion; the same  *)
(* step operators drive the model-checked modules (OutliersMC).  Where a   *)
(* comparison of the real code is too close to call in floating point the  *)
(* run ends with status "close" and only consistency of the result with    *)
(* its own mask is required.                                               *)
(***************************************************************************)
EXTENDS OptimumFilter

Sorted(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
Median(s) == LET t == TLCEval(Sorted(s)) n == Len(s) IN
  IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE RHalf(RAdd(t[n \div 2], t[n \div 2 + 1]))

RECURSIVE PickFrom(_, _, _)
PickFrom(x, S, i) == IF i > Len(x) THEN <<>> ELSE (IF i \in S THEN <<x[i]>> ELSE <<>>) \o PickFrom(x, S, i + 1)
Pick(x, S) == TLCEval(PickFrom(x, S, 1))           \* the selected elements, in order
Var(s) == LET m == VMean(s) IN RDivI(RSum(TLCEval([i \in 1..Len(s) |-> RSq(RSub(s[i], m))])), Len(s))
Moment3(s) == LET m == VMean(s) IN RDivI(RSum(TLCEval([i \in 1..Len(s) |-> RPow(RSub(s[i], m), 3)])), Len(s))

TwoTo40 == RPow(Rat(2), 40)
Dyadic(r) == IsIntR(RMul(r, TwoTo40))
(* lo < hi decided safely?  exact says that both sides are computed exactly *)
CloseTo(a, b, eps) == RLe(RAbs(RSub(a, b)), RMul(eps, RAdd(RAbs(a), RAbs(b))))

-------------------------------------------------- (* sigma clip (iterstat) *)
(* state: mean m, variance v, kept indices, stable count, status           *)
ClipInit(data) == [m |-> VMean(data), v |-> Var(data), kept |-> 1..Len(data), stable |-> 0, st |-> "run", n |-> 0]
(* exact: data and statistics carry no rounding of their own               *)
ClipStep(data, cut, cutoff, exact, s) ==
  LET c2v == RMul(RSq(cut), s.v)
      d2(i) == RSq(RSub(data[i], s.m))
      decisive(i) == exact /\ Dyadic(s.m) /\ Dyadic(s.v) /\ Dyadic(cut) /\
                     (RIsZero(cut) \/ RIsZero(c2v) \/ (Dyadic(RDiv(RAbs(RSub(data[i], s.m)), cut)) /\ REq(d2(i), c2v)))
      close == \E i \in 1..Len(data) : CloseTo(d2(i), c2v, Ten(-10)) /\ ~decisive(i)
      kept == TLCEval({i \in 1..Len(data) : RLt(d2(i), c2v)})
  IN IF close THEN [s EXCEPT !.st = "close"]
     ELSE IF Cardinality(kept) <= 1 THEN [ClipInit(data) EXCEPT !.st = "all"]
     ELSE LET x == Pick(data, kept)
              m2 == VMean(x)
              v2 == Var(x)
              dm == RAbs(RSub(m2, s.m))
              ds == RAbs(RSub(Sqrt(v2), Sqrt(s.v)))
              moved == RGt(dm, cutoff) \/ RGt(ds, cutoff)
              stable == IF moved THEN 0 ELSE s.stable + 1
          IN IF (CloseTo(dm, cutoff, Ten(-8)) \/ CloseTo(ds, cutoff, Ten(-8))) /\ ~RIsZero(cutoff)
             THEN [s EXCEPT !.st = "close"]
             ELSE [m |-> m2, v |-> v2, kept |-> kept, stable |-> stable,
                   st |-> IF stable >= 3 THEN "done" ELSE "run", n |-> s.n + 1]
RECURSIVE ClipLoop(_, _, _, _, _)
ClipLoop(data, cut, cutoff, exact, s) ==
  IF s.st # "run" THEN s
  ELSE IF s.n > 200 THEN [s EXCEPT !.st = "endless"]
  ELSE ClipLoop(data, cut, cutoff, exact, TLCEval(ClipStep(data, cut, cutoff, exact, s)))
ClipCutoff(data, prec) == RDiv(Sqrt(Var(data)), prec)
ClipRun(data, cut, prec, exact) ==
  IF Len(data) = 0 THEN [m |-> R0, v |-> R0, kept |-> {}, stable |-> 0, st |-> "all", n |-> 0]
  ELSE ClipLoop(data, cut, ClipCutoff(data, prec), exact, TLCEval(ClipInit(data)))

------------------------------------- (* skewness trimming (removeoutliers) *)
(* compare the skewness of s with the target: "gt", "le" or "close"        *)
SkewCmp(s, target) ==
  IF Len(s) = 0 THEN "le"
  ELSE LET m2 == Var(s)
           m3 == Moment3(s)
           a == RSq(m3)
           b == RMul(RSq(target), RPow(m2, 3))
           gt == IF RSgn(target) >= 0 THEN RSgn(m3) > 0 /\ RGt(a, b) ELSE RSgn(m3) >= 0 \/ RLt(a, b)
       IN IF RIsZero(m2) THEN "le"                       \* undefined skewness stops the iteration
          ELSE IF CloseTo(a, b, Ten(-8)) THEN "close" ELSE IF gt THEN "gt" ELSE "le"

(* x may contain +infinity; kept indices never include it                   *)
TrimInit(x) == [kept |-> {i \in 1..Len(x) : IsFin(x[i])}, st |-> "run", n |-> 0]
TrimStep(x, target, maxiter, eps, s) ==
  LET cmp == SkewCmp(Pick(x, s.kept), target) IN
  IF cmp = "le" \/ (s.n >= 1 /\ s.n >= maxiter) THEN [s EXCEPT !.st = "done"]
  ELSE IF cmp = "close" THEN [s EXCEPT !.st = "close"]
  ELSE LET fin == {i \in 1..Len(x) : IsFin(x[i])}
           med == Median(Pick(x, s.kept))
           dev == TLCEval([i \in fin |-> RSub(x[i], med)])
           xs == Pick(x, fin)
           dlo == RAbs(RSub(MinSeq(xs), med))
           dhi == RAbs(RSub(MaxSeq(xs), med))
           dist == IF fin # 1..Len(x) THEN dlo ELSE RMin(dlo, dhi)
           extreme(i) == REq(x[i], MinSeq(xs)) \/ REq(x[i], MaxSeq(xs))
           close == ~RIsZero(eps) /\ \E i \in s.kept : ~extreme(i) /\ CloseTo(RAbs(dev[i]), dist, eps)
       IN IF close THEN [s EXCEPT !.st = "close"]
          ELSE [kept |-> {i \in s.kept : RLt(RAbs(dev[i]), dist)}, st |-> "run", n |-> s.n + 1]
RECURSIVE TrimLoop(_, _, _, _, _)
TrimLoop(x, target, maxiter, eps, s) ==
  IF s.st # "run" THEN s ELSE TrimLoop(x, target, maxiter, eps, TLCEval(TrimStep(x, target, maxiter, eps, s)))
TrimRun(x, target, maxiter, eps) == TrimLoop(x, target, maxiter, eps, TLCEval(TrimInit(x)))

------------------------------------------------- (* covariance (itercov) *)
(* rows: one sequence per dimension                                        *)
CovOf(rows) == LET n == Len(rows[1])
                   d == TLCEval([j \in 1..Len(rows) |-> LET m == VMean(rows[j]) IN TLCEval([i \in 1..n |-> RSub(rows[j][i], m)])])
               IN TLCEval([j \in 1..Len(rows) |-> TLCEval([k \in 1..Len(rows) |-> RDivI(RDot(d[j], d[k]), n - 1)])])
MeansOf(rows) == TLCEval([j \in 1..Len(rows) |-> VMean(rows[j])])
PickRows(rows, S) == TLCEval([j \in 1..Len(rows) |-> Pick(rows[j], S)])
(* ill-conditioned: the covariance determines a direction to worse than 1e-7 *)
RECURSIVE PivotsOK(_, _)
PivotsOK(m, diag) == IF m = <<>> THEN TRUE
  ELSE IF RLe(m[1][1], RMul(Ten(-7), diag[1])) THEN FALSE
  ELSE LET n == Len(m) IN
    PivotsOK(TLCEval([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
        RSub(m[i+1][j+1], RMul(RDiv(m[i+1][1], m[1][1]), m[1][j+1]))]]), Tail(diag))
CovInit(rows) == [m |-> MeansOf(rows), c |-> CovOf(rows), kept |-> 1..Len(rows[1]), stable |-> 0, n |-> 0, st |-> "run"]
CovStep(rows, maxchi, thr, maxiter, errm, errc, s) ==
  LET nd == Len(rows) n == Len(rows[1])
      diag == TLCEval([j \in 1..nd |-> s.c[j][j]])
      delta(i) == TLCEval([j \in 1..nd |-> RSub(rows[j][i], s.m[j])])
      chi(i) == RDot(delta(i), Gauss(s.c, delta(i)))
      chis == TLCEval([i \in 1..n |-> chi(i)])
      dev2(i, j) == RSq(delta(i)[j])
      lim2 == TLCEval([j \in 1..nd |-> RMul(RSq(thr), diag[j])])
      close == \E i \in 1..n : CloseTo(chis[i], maxchi, Ten(-8)) \/ \E j \in 1..nd : CloseTo(dev2(i, j), lim2[j], Ten(-9))
      kept == TLCEval({i \in 1..n : RLt(chis[i], maxchi) /\ \A j \in 1..nd : RLt(dev2(i, j), lim2[j])})
  IN IF ~PivotsOK(s.c, diag) THEN [s EXCEPT !.st = "flat"]
     ELSE IF close THEN [s EXCEPT !.st = "close"]
     ELSE IF Cardinality(kept) <= nd THEN [CovInit(rows) EXCEPT !.st = "all"]
     ELSE LET sub == PickRows(rows, kept)
              m2 == MeansOf(sub)
              c2 == CovOf(sub)
              dm == TLCEval([j \in 1..nd |-> RAbs(RSub(m2[j], s.m[j]))])
              dc == TLCEval([j \in 1..nd |-> TLCEval([k \in 1..nd |-> RAbs(RSub(c2[j][k], s.c[j][k]))])])
              near == \E j \in 1..nd : CloseTo(dm[j], errm[j], Ten(-7)) \/ \E k \in 1..nd : CloseTo(dc[j][k], errc, Ten(-7))
              moved == \E j \in 1..nd : RGt(dm[j], errm[j]) \/ \E k \in 1..nd : RGt(dc[j][k], errc)
              stable == IF moved THEN 0 ELSE s.stable + 1
          IN IF near THEN [s EXCEPT !.st = "close"]
             ELSE [m |-> m2, c |-> c2, kept |-> kept, stable |-> stable, n |-> s.n + 1,
                   st |-> IF stable >= 2 \/ s.n + 1 >= maxiter THEN "done" ELSE "run"]
RECURSIVE CovLoop(_, _, _, _, _, _, _)
CovLoop(rows, maxchi, thr, maxiter, errm, errc, s) ==
  IF s.st # "run" THEN s
  ELSE CovLoop(rows, maxchi, thr, maxiter, errm, errc, TLCEval(CovStep(rows, maxchi, thr, maxiter, errm, errc, s)))
CovRun(rows, nsigma, thr, maxiter, frac) ==
  LET nd == Len(rows)
      s0 == TLCEval(CovInit(rows))
      var0 == TLCEval([j \in 1..nd |-> s0.c[j][j]])
      maxchi == RAdd(Rat(nd), RMul(nsigma, Sqrt(Rat(2 * nd))))
  IN CovLoop(rows, maxchi, thr, maxiter, TLCEval([j \in 1..nd |-> RMul(frac, Sqrt(var0[j]))]),
             RMul(frac, RSum(var0)), s0)

------------------------------------------------------------- (* verdicts *)
Masked(e) == {i \in 1..Len(e.mask) : e.mask[i]}
BiasedOK(e, data) ==
  LET x == Pick(data, Masked(e)) sc == RAdd(MaxAbs(data), Ten(-30)) IN
  IF x = <<>> THEN {"empty selection"}
  ELSE Fail("mean is that of the selected points", ScNear(e.mean, VMean(x), 10, sc))
       \union Fail("deviation is that of the selected points",
              IsFin(e.std) /\ RSgn(e.std) >= 0 /\ Near(e.std, Sqrt(Var(x)), RMul(Ten(-9), sc)))

IterstatFails(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.data) THEN {"mask of the input's length"}
  ELSE LET r == ClipRun(e.data, e.cut, e.prec, TRUE) IN
       BiasedOK(e, e.data)
       \union (IF r.st \in {"done", "all"} THEN Fail("mask of the documented iteration", Masked(e) = r.kept) ELSE {})

(* mean and deviation of the normal distribution whose truncation to the   *)
(* clip's bounds has the first two moments of the selected points          *)
UnbFails(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.data) THEN {"mask of the input's length"}
  ELSE IF ~(IsFin(e.mean) /\ IsFin(e.std)) THEN {"finite estimates"}
  ELSE
  LET r == ClipRun(e.data, e.cut, e.prec, TRUE)
      m == VMean(Pick(e.data, Masked(e)))
      sd == Sqrt(Var(Pick(e.data, Masked(e))))
      lo == RSub(m, RMul(e.cut, sd))
      up == RAdd(m, RMul(e.cut, sd))
      x == Pick(e.data, {i \in Masked(e) : RLe(lo, e.data[i]) /\ RLe(e.data[i], up)})
      n == Len(x)
      mu == RSig(e.mean, 8)
      sg == RSig(e.std, 8)
      z(b) == RSig(RDiv(RSub(b, mu), sg), 8)
      d == RSub(NormCdf(z(up)), NormCdf(z(lo)))
      pu == RDiv(NormPdf(z(up)), sg)
      pl == RDiv(NormPdf(z(lo)), sg)
      dev == RSub(VMean(x), mu)
      t1 == RDiv(RSub(pu, pl), d)
      eq1 == RAdd(dev, RMul(RSq(sg), t1))
      bad1 == RAdd(dev, t1)
      m2 == VMean([i \in 1..n |-> RSq(RSub(x[i], mu))])
      eq2 == RAdd(RSub(m2, RSq(sg)), RMul(RSq(sg), RDiv(RSub(RMul(RSub(up, mu), pu), RMul(RSub(lo, mu), pl)), d)))
      small(y) == RLe(RAbs(y), RMul(Ten(-5), sd))
  IN (IF r.st \in {"done", "all"} THEN Fail("mask of the documented iteration", Masked(e) = r.kept) ELSE {})
     \union (IF RSgn(e.std) <= 0 THEN {"deviation of the truncated normal"}
             ELSE Fail("deviation of the truncated normal", RLe(RAbs(eq2), RMul(Ten(-5), RSq(sd))))
                  \union (IF small(eq1) THEN {} ELSE IF small(bad1) THEN {"mean of the truncated normal: truncation term without sigma^2"}
                          ELSE {"mean of the truncated normal"}))

RmOutFails(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.data) THEN {"mask of the input's length"}
  ELSE LET r == TrimRun(e.data, e.target, e.maxiter, R0) IN
       IF r.st = "close" THEN {} ELSE Fail("mask of the documented iteration", Masked(e) = r.kept)

(* points in a hyperplane have no chi-square: any outcome is accepted then *)
ItercovFails(e) ==
  IF e.exc = "LinAlgError" /\ CovRun(e.rows, e.nsigma, e.thr, e.maxiter, e.frac).st \in {"flat", "close"} THEN {}
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.rows[1]) THEN {"mask of the input's length"}
  ELSE LET nd == Len(e.rows)
           r == CovRun(e.rows, e.nsigma, e.thr, e.maxiter, e.frac)
           sub == PickRows(e.rows, Masked(e))
           sc == TLCEval([j \in 1..nd |-> RAdd(MaxAbs(e.rows[j]), Ten(-30))])
       IN (IF Len(sub[1]) < 2 THEN {"empty selection"}
           ELSE LET m == MeansOf(sub) c == CovOf(sub) IN
                Fail("mean is that of the selected points",
                     Len(e.mean) = nd /\ \A j \in 1..nd : ScNear(e.mean[j], m[j], 10, sc[j]))
                \union Fail("covariance is that of the selected points",
                     Len(e.cov) = nd /\ \A j \in 1..nd : Len(e.cov[j]) = nd /\ \A k \in 1..nd :
                         ScNear(e.cov[j][k], c[j][k], 9, RMul(sc[j], sc[k]))))
          \union (IF r.st \in {"done", "all"} THEN Fail("mask of the documented iteration", Masked(e) = r.kept) ELSE {})

(* first maximum of a trace *)
ArgMax(x) == CHOOSE i \in 1..Len(x) : (\A j \in 1..Len(x) : RLe(x[j], x[i])) /\ \A j \in 1..(i-1) : RLt(x[j], x[i])
MuonFails(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.traces) THEN {"mask of the input's length"}
  ELSE UNION {LET x == e.traces[i]
                  p == ArgMax(x)
                  level == RMul(x[p], e.thresh)
              IN IF p + e.nsat > Len(x) THEN Fail("too close to the end to tell", ~e.mask[i])
                 ELSE IF ~Dyadic(level) /\ CloseTo(x[p + e.nsat], level, Ten(-12)) THEN {}
                 ELSE Fail("marked exactly when still above the fraction of its maximum",
                           e.mask[i] = RGe(x[p + e.nsat], level))
              : i \in 1..Len(e.traces)}

---------------------------------------------------------- (* automatic cuts *)
(* Python's round of nbin/2: half to even *)
HalfEven(n) == IF n % 2 = 0 THEN n \div 2 ELSE LET k == n \div 2 IN IF k % 2 = 0 THEN k ELSE k + 1
CutTemplate(n, fs) ==
  LET trig == HalfEven(n)
      t(i) == RDiv(Rat(i - trig), fs)
      raw == TLCEval([i \in 1..n |-> IF i < trig THEN R0
                ELSE RMul(RSub(R1, Exp(RNeg(RDiv(t(i), Ten(-5))))), Exp(RNeg(RDiv(t(i), Ten(-4)))))])
  IN VScale(RInv(MaxSeq(raw)), raw)
CutCtx(n, fs) == Ctx([tmpl |-> TLCEval([i \in 1..n |-> RSig(CutTemplate(n, fs)[i], 8)]),
                      psd |-> [i \in 1..n |-> R1], fs |-> fs, coupling |-> "AC", integralnorm |-> FALSE])
FitOf(c, x) == LET s == Sig(c, x) IN
  [height |-> RDiv(MaxAbs(s.a), c.norm),
   chi2 |-> RSub(s.c0, RDiv(RSq(MaxAbs(s.a)), c.norm))]

IntOf(x) == ToInt(RatZ(RFloor(x)))
MeanOver(x, a, b) == VMean([k \in 1..(b - a) |-> x[a + k]])          \* bins a..b-1 (0-based)
Ranges(n, fs, didv, sg) ==
  LET np == IntOf(RDiv(RMulI(n, sg), fs))
      per == RDiv(fs, sg)
      f(num, den) == IntOf(RMul(per, Frac(num, den)))
      last(num, den) == IntOf(RAdd(RMul(Rat(np - 1), per), RMul(per, Frac(num, den))))
  IN IF ~didv THEN [b |-> <<0, n \div 10>>, e |-> <<(9 * n) \div 10, n>>]
     ELSE IF np > 1 THEN [b |-> <<f(1, 4), f(3, 8)>>, e |-> <<last(1, 4), last(3, 8)>>]
     ELSE [b |-> <<f(1, 4), f(5, 16)>>, e |-> <<f(5, 16), f(3, 8)>>]
SlopeOf(x, r) == RSub(MeanOver(x, r.e[1], r.e[2]), MeanOver(x, r.b[1], r.b[2]))
BaseOf(x, r) == MeanOver(x, r.b[1], r.b[2])

Reject(algo, q, nsig) ==
  IF algo = "iterstat" THEN LET r == ClipRun(q, nsig, Rat(10000), FALSE) IN
       IF r.st \in {"done", "all"} THEN <<"ok", r.kept>> ELSE <<"close", {}>>
  ELSE LET r == TrimRun(q, Frac(1, 20), 20, Ten(-9)) IN IF r.st = "close" THEN <<"close", {}>> ELSE <<"ok", r.kept>>

(* symmetrised distribution: random, so any admissible choice K is accepted; *)
(* exact = FALSE when K has been thinned out further                         *)
SymmOK(data, K, exact) ==
  LET n == Len(data)
      r == ClipRun(data, Rat(2), Rat(10000), TRUE)
      v == IF RSgn(r.m) > 0 THEN VScale(Rat(-1), data) ELSE data
      up == MaxSeq(v)
      root == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
      h == IF root % 2 = 0 THEN root + 1 ELSE root
      edge(k) == RAdd(RNeg(up), RMul(RMulI(2, up), Frac(k, h)))          \* k = 0..h
      onedge == \E i \in 1..n, k \in 1..(h-1) : CloseTo(v[i], edge(k), Ten(-9))
      bin(i) == IF RLt(v[i], RNeg(up)) THEN -1
                ELSE IF REq(v[i], up) THEN h - 1
                ELSE CHOOSE k \in 0..(h-1) : RLe(edge(k), v[i]) /\ RLt(v[i], edge(k + 1))
      bins == TLCEval([i \in 1..n |-> bin(i)])
      cnt(k) == Cardinality({i \in 1..n : bins[i] = k})
      most(k) == IF cnt(k) < cnt(h - 1 - k) THEN cnt(k) ELSE cnt(h - 1 - k)
      mid == h \div 2
  IN IF r.st \notin {"done", "all"} \/ CloseTo(r.m, R0, Ten(-9)) THEN {}
     ELSE IF RSgn(up) <= 0 \/ h <= 2 THEN Fail("cannot be symmetrised: keeps everything", exact => K = 1..n)
     ELSE IF onedge THEN {}
     ELSE Fail("keeps the sparser side and the centre", exact => \A i \in 1..n : bins[i] >= mid => i \in K)
          \union Fail("drops what has no opposite bin", \A i \in K : bins[i] # -1)
          \union Fail("keeps as many as the opposite bin holds",
                \A k \in 0..(mid-1) : LET m == Cardinality({i \in K : bins[i] = k}) IN IF exact THEN m = most(k) ELSE m <= most(k))
SymmFails(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.data) THEN {"mask of the input's length"}
  ELSE SymmOK(e.data, Masked(e), TRUE)

(* survivors of one stage, as indices into the full data *)
RECURSIVE SetSeq(_, _, _)
SetSeq(S, i, n) == IF i > n THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o SetSeq(S, i + 1, n)
Stage(cur, enabled, quantity, algo, nsig, n) ==
  IF cur[1] = "close" \/ ~enabled THEN cur
  ELSE LET ix == TLCEval(SetSeq(cur[2], 1, n))
           r == Reject(algo, TLCEval([k \in 1..Len(ix) |-> quantity[ix[k]]]), nsig)
       IN <<r[1], {ix[k] : k \in r[2]}>>
Chain(e) ==
  LET n == Len(e.traces)
      nb == Len(e.traces[1])
      c == CutCtx(nb, e.fs)
      ran == Ranges(nb, e.fs, e.didv, e.sgfreq)
      fit == TLCEval([i \in 1..n |-> IF e.pileup1 \/ e.pileup2 \/ e.chi2 THEN FitOf(c, e.traces[i])
                                      ELSE [height |-> R0, chi2 |-> R0]])
      h == TLCEval([i \in 1..n |-> RSig(fit[i].height, 10)])
      x2 == TLCEval([i \in 1..n |-> RSig(fit[i].chi2, 10)])
      s1 == TLCEval(Stage(<<"ok", 1..n>>, e.pileup1, h, e.algo, e.nsig[1], n))
      sl == TLCEval([i \in 1..n |-> SlopeOf(e.traces[i], ran)])
      (* on request the slopes are first thinned out to a symmetric distribution *)
      ix == TLCEval(SetSeq(s1[2], 1, n))
      q == TLCEval([k \in 1..Len(ix) |-> sl[ix[k]]])
      thin == e.sym /\ e.slope /\ s1[1] = "ok"
      known == Len(e.picked) = Len(ix)
      bad == TLCEval(IF ~thin THEN {} ELSE IF known THEN SymmOK(q, {k \in 1..Len(ix) : e.picked[k]}, TRUE)
                     ELSE SymmOK(q, {k \in 1..Len(ix) : e.mask[ix[k]]}, FALSE))
      s2 == TLCEval(IF thin /\ ~known THEN <<"close", {}>>
                    ELSE Stage(IF thin THEN <<"ok", {ix[k] : k \in {j \in 1..Len(ix) : e.picked[j]}}>> ELSE s1, e.slope, sl, e.algo, e.nsig[2], n))
      s3 == TLCEval(Stage(s2, e.baseline, [i \in 1..n |-> BaseOf(e.traces[i], ran)], e.algo, e.nsig[3], n))
      (* the heights of mean-subtracted traces: the zero-frequency part is    *)
      (* ignored by the AC coupled filter anyway                              *)
      s4 == TLCEval(Stage(s3, e.pileup2 /\ e.didv, h, e.algo, e.nsig[4], n))
      s5 == TLCEval(Stage(s4, e.chi2, x2, "iterstat", e.nsig[5], n))
  IN [r |-> s5, bad |-> bad]
AutoFails(e) ==
  IF e.algo \notin {"removeoutliers", "iterstat"} /\ (e.pileup1 \/ e.slope \/ e.baseline \/ (e.pileup2 /\ e.didv))
  THEN Fail("an unknown algorithm raises ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.mask) # Len(e.traces) THEN {"mask of the input's length"}
  ELSE LET ch == Chain(e) r == ch.r IN ch.bad \union IF r[1] = "close" THEN {} ELSE
       Fail("keeps exactly the traces that pass every enabled stage", Masked(e) = r[2])

=============================================================================
