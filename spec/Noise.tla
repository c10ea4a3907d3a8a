------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Power spectral densities (C19), the noise object as a state machine     *)
(* over its results (C20) and generated noise (C21).                       *)
(***************************************************************************)
EXTENDS Utils

------------------------------------------------------------------- (* PSDs *)
NFreq(n) == n \div 2 + 1
Partnered(k, n) == k > 1 /\ 2 * (k - 1) # n         \* bin k of a one-sided spectrum has a negative partner
TwoSided(x, fs, un) == LET X == DFT(x, un) IN TLCEval([k \in 1..Len(x) |-> RDiv(CAbs2(X[k]), RMulI(Len(x), fs))])
(* mean over a stack of rows *)
MeanRows(rows) == TLCEval([k \in 1..Len(rows[1]) |-> RDivI(RSum([r \in 1..Len(rows) |-> rows[r][k]]), Len(rows))])
Folded(p) == LET n == Len(p) IN
  TLCEval([k \in 1..NFreq(n) |-> IF Partnered(k, n) THEN RMulI(2, p[k]) ELSE p[k]])
OneFreqs(n, fs) == [k \in 1..NFreq(n) |-> RDivI(RMulI(k - 1, fs), n)]
TwoFreqs(n, fs) == [k \in 1..n |-> RDivI(RMulI(FreqIx(k, n), fs), n)]
Energy(x) == RDot(x, x)
MaxEnergy(rows) == MaxSeq([r \in 1..Len(rows) |-> Energy(rows[r])])

(* e.x: per remaining-axis entry the stack of rows averaged over           *)
PsdFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.x[1][1])
      un == Unit(n)
      two(c) == TLCEval(MeanRows([r \in 1..Len(e.x[c]) |-> TwoSided(e.x[c][r], e.fs, un)]))
      sc(c) == RAdd(RDiv(MaxEnergy(e.x[c]), e.fs), Ten(-300))
      \* Parseval's theorem on the recorded values
      total(c, p) == RSum([k \in 1..Len(p) |-> IF e.folded /\ ~Partnered(k, n) THEN p[k] ELSE p[k]])
      meanE(c) == RDivI(RSum([r \in 1..Len(e.x[c]) |-> Energy(e.x[c][r])]), Len(e.x[c]))
  IN Fail("frequencies", AllNear(e.f, IF e.folded THEN OneFreqs(n, e.fs) ELSE TwoFreqs(n, e.fs), 12, e.fs))
     \cup Fail("one spectrum per entry of the remaining axes", Len(e.psd) = Len(e.x))
     \cup (IF Len(e.psd) # Len(e.x) THEN {} ELSE
       Fail("|DFT|^2/(fs n) averaged over the stack, folded where a frequency has a negative partner",
            \A c \in 1..Len(e.x) : LET t == two(c) IN AllNear(e.psd[c], IF e.folded THEN Folded(t) ELSE t, 11, sc(c)))
       \cup Fail("Parseval: the spectrum sums to the mean square",
            \A c \in 1..Len(e.x) : AllFin(e.psd[c]) /\
              ScNear(RMul(RSum(e.psd[c]), e.fs), meanE(c), 10, RAdd(MaxEnergy(e.x[c]), Ten(-300)))))
FoldFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  Fail("frequencies", AllNear(e.f, OneFreqs(Len(e.psd), e.fs), 12, e.fs))
  \cup Fail("folded: only frequencies with a negative partner are doubled", AllNear(e.out, Folded(e.psd), 13, RAdd(MaxAbs(e.psd), Ten(-300))))
SmoothFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.psd)
      half == SubSeq(e.psd, 1, NFreq(n))
      d == TLCEval(Decreasing(half, [i \in 1..NFreq(n) |-> Rat(i - 1)]))
      ref == [k \in 1..n |-> IF k <= NFreq(n) THEN d[k] ELSE d[n + 2 - k]]
      sc == RAdd(MaxAbs(ref), MaxAbs(e.psd))
  IN Fail("running minima of the non-negative frequencies, mirrored", AllNear(e.out, ref, 11, sc))
     \cup Fail("symmetric", Len(e.out) = n /\ \A k \in 2..n : e.out[k] = e.out[n + 2 - k])

----------------------------------------------------------- (* noise object *)
(* results derived from the traces; each is absent or belongs to the       *)
(* current traces                                                          *)
Results == {"psd", "corr", "csd", "uncorr"}
AfterOp(have, op, nch) ==
  CASE op = "npsd" -> have \cup {"psd"}
    [] op = "ncorr" -> IF nch = 1 THEN have ELSE have \cup {"corr"}
    [] op = "ncsd" -> IF nch = 1 THEN have ELSE have \cup {"csd"}
    [] op = "nuncorr" -> IF nch = 1 THEN have ELSE have \cup {"csd", "uncorr"}
    [] op = "nslope" -> {}
    [] OTHER -> have

NTr(T) == Len(T)
NCh(T) == Len(T[1])
NBin(T) == Len(T[1][1])
ChanPsd(T, ch, fs, un, part) ==
  LET n == NBin(T)
      one(r) == LET X == DFT(T[r][ch], un) IN
                [k \in 1..NFreq(n) |-> RMulI(IF Partnered(k, n) THEN 2 ELSE 1,
                   RDiv(CASE part = "all" -> CAbs2(X[k]) [] part = "re" -> RSq(X[k][1]) [] part = "im" -> RSq(X[k][2]),
                        RMulI(n, fs)))]
  IN MeanRows([r \in 1..NTr(T) |-> TLCEval(one(r))])
ObjPsdFails(T, fs, o) ==
  LET un == Unit(NBin(T))
      sc == RAdd(RDiv(MaxSeq([r \in 1..NTr(T) |-> MaxEnergy(T[r])]), fs), Ten(-300))
      good(f, part) == Len(f) = NCh(T) /\ \A c \in 1..NCh(T) : AllNear(f[c], ChanPsd(T, c, fs, un, part), 10, sc)
  IN Fail("PSD of each channel", good(o.psd, "all"))
     \cup Fail("PSD of the real part", good(o.real_psd, "re"))
     \cup Fail("PSD of the imaginary part", good(o.imag_psd, "im"))

Corrcoef(a, b) ==
  LET ma == VMean(a) mb == VMean(b)
      da == [i \in 1..Len(a) |-> RSub(a[i], ma)] db == [i \in 1..Len(b) |-> RSub(b[i], mb)]
  IN RDiv(RDot(da, db), Sqrt(RMul(RDot(da, da), RDot(db, db))))
Degenerate(a) == LET m == VMean(a) d == [i \in 1..Len(a) |-> RSub(a[i], m)] IN RLe(RDot(d, d), RMul(Ten(-6), RDot(a, a)))
ObjCorrFails(T, o) ==
  LET un == Unit(NBin(T))
      n == NBin(T)
      mag == TLCEval([r \in 1..NTr(T) |-> [c \in 1..NCh(T) |-> LET X == DFT(T[r][c], un) IN
                [k \in 1..NFreq(n) |-> LET p == CAbs2(X[k]) IN IF RLe(p, Ten(-28)) THEN R0 ELSE Tr(Sqrt(p))]]])
      col(c, k) == [r \in 1..NTr(T) |-> mag[r][c][k]]
  IN Fail("correlation coefficient of the Fourier magnitudes at every frequency",
       /\ Len(o.corr) = NCh(T)
       /\ \A a \in 1..NCh(T) : Len(o.corr[a]) = NCh(T) /\ \A b \in 1..NCh(T) :
            /\ Len(o.corr[a][b]) = NFreq(n)
            /\ \A k \in 1..NFreq(n) :
                 LET u == TLCEval(col(a, k)) v == TLCEval(col(b, k)) IN
                 (Degenerate(u) \/ Degenerate(v)) \/ ScNear(o.corr[a][b][k], Corrcoef(u, v), 7, R1))

(* cross-spectral density: Hann window, mean removed, density scaling      *)
Hann(n, un) == [j \in 1..n |-> RHalf(RSub(R1, un[j][1]))]
CsdRows(T, a, b, fs, un) ==         \* [trace][freq] -> complex
  LET n == NBin(T)
      w == TLCEval(Hann(n, un))
      spec(x) == LET m == VMean(x) IN DFT(TLCEval([j \in 1..n |-> Tr(RMul(w[j], RSub(x[j], m)))]), un)
      nrm == RMul(fs, RDot(w, w))
  IN TLCEval([r \in 1..NTr(T) |-> LET A == spec(T[r][a]) B == spec(T[r][b]) IN
       [k \in 1..NFreq(n) |-> CScale(RDiv(Rat(IF Partnered(k, n) THEN 2 ELSE 1), nrm), CMul(CConj(A[k]), B[k]))]])
(* out is v with its non-positive entries interpolated; entries too small  *)
(* to have a sign may be counted either way                                *)
FillGood(out, v, k, scale) ==
  LET eps == RMul(Ten(-12), scale)
      am == TLCEval({i \in 1..Len(v) : RLe(RAbs(v[i]), eps)})
      pos == TLCEval({i \in 1..Len(v) : RGt(v[i], eps)})
      pick(G) == TLCEval([i \in 1..Len(v) |-> IF i \in G THEN (IF i \in am THEN eps ELSE v[i]) ELSE (IF i \in am THEN RNeg(eps) ELSE v[i])])
      \* with no clearly positive entry the array may be left alone
  IN Len(out) = Len(v) /\
     IF Cardinality(am) > 5 THEN (\A i \in pos : ScNear(out[i], v[i], k, scale)) /\ AllFin(out)
     ELSE \E A \in SUBSET am : AllNear(out, FillNeg(pick(pos \cup A)), k, scale)
ObjCsdFails(T, fs, o) ==
  LET n == NBin(T) nc == NCh(T)
      un == Unit(n)
      sc == RAdd(RDiv(MaxSeq([r \in 1..NTr(T) |-> MaxEnergy(T[r])]), fs), Ten(-300))
      rows == TLCEval([a \in 1..nc |-> [b \in 1..nc |-> CsdRows(T, a, b, fs, un)]])
      re(a, b, r) == [k \in 1..NFreq(n) |-> rows[a][b][r][k][1]]
      im(a, b, r) == [k \in 1..NFreq(n) |-> rows[a][b][r][k][2]]
      mre(a, b) == MeanRows([r \in 1..NTr(T) |-> re(a, b, r)])
      mim(a, b) == MeanRows([r \in 1..NTr(T) |-> im(a, b, r)])
      sd(F(_)) == LET m == TLCEval(MeanRows([r \in 1..NTr(T) |-> F(r)])) IN
        [k \in 1..NFreq(n) |-> RDivI(RSum([r \in 1..NTr(T) |-> RSq(RSub(F(r)[k], m[k]))]), NTr(T))]
      sdre(a, b) == sd(LAMBDA r : re(a, b, r))
      sdim(a, b) == sd(LAMBDA r : im(a, b, r))
      shape(f) == Len(f) = nc /\ \A a \in 1..nc : Len(f[a]) = nc /\ \A b \in 1..nc : Len(f[a][b]) = NFreq(n)
      pairs == {<<a, b>> : a \in 1..nc, b \in 1..nc}
      sqrts(v) == TLCEval([k \in 1..Len(v) |-> IF RLe(v[k], RMul(Ten(-26), RSq(sc))) THEN R0 ELSE Sqrt(v[k])])
  IN Fail("cross-spectral density averaged over traces",
       shape(o.csd) /\ \A p \in pairs : LET u == TLCEval(mre(p[1], p[2])) v == TLCEval(mim(p[1], p[2])) IN
         \A k \in 1..NFreq(n) : CNear(o.csd[p[1]][p[2]][k], <<u[k], v[k]>>, 10, sc))
     \cup Fail("Hermitian with non-negative diagonal",
       shape(o.csd) /\ \A p \in pairs : \A k \in 1..NFreq(n) :
         CFin(o.csd[p[1]][p[2]][k]) /\ CNear(o.csd[p[1]][p[2]][k], CConj(o.csd[p[2]][p[1]][k]), 10, sc))
     \cup Fail("real part (gaps interpolated)", shape(o.real_csd) /\ \A p \in pairs : FillGood(o.real_csd[p[1]][p[2]], TLCEval(mre(p[1], p[2])), 9, sc))
     \cup Fail("imaginary part (gaps interpolated)", shape(o.imag_csd) /\ \A p \in pairs : FillGood(o.imag_csd[p[1]][p[2]], TLCEval(mim(p[1], p[2])), 9, sc))
     \cup Fail("scatter of the real part", shape(o.real_csd_std) /\ \A p \in pairs : FillGood(o.real_csd_std[p[1]][p[2]], sqrts(sdre(p[1], p[2])), 8, sc))
     \cup Fail("scatter of the imaginary part", shape(o.imag_csd_std) /\ \A p \in pairs : FillGood(o.imag_csd_std[p[1]][p[2]], sqrts(sdim(p[1], p[2])), 8, sc))

(* determinant of a complex matrix of size <= 3 *)
RECURSIVE CDet(_)
CDet(m) == LET n == Len(m) IN
  IF n = 0 THEN C1 ELSE IF n = 1 THEN m[1][1]
  ELSE LET minor(j) == [r \in 1..(n-1) |-> [c \in 1..(n-1) |-> m[r + 1][IF c < j THEN c ELSE c + 1]]]
           term(j) == LET t == CMul(m[1][j], CDet(minor(j))) IN IF j % 2 = 1 THEN t ELSE CNeg(t)
           RECURSIVE Sm(_)
           Sm(j) == IF j = 0 THEN C0 ELSE CAdd(term(j), Sm(j - 1))
       IN Sm(n)
Minor(m, i) == LET n == Len(m) IN [r \in 1..(n-1) |-> [c \in 1..(n-1) |->
                  m[IF r < i THEN r ELSE r + 1][IF c < i THEN c ELSE c + 1]]]
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN R1 ELSE RMul(s[1], RProd(Tail(s)))
(* uncorrelated noise 1/|(CSD^-1)_cc|; the rest is correlated              *)
ObjUncorrFails(T, fs, o) ==
  LET nc == NCh(T) nf == NFreq(NBin(T))
      m(k) == TLCEval([a \in 1..nc |-> [b \in 1..nc |-> o.csd[a][b][k]]])
      finite(k) == \A a \in 1..nc : \A b \in 1..nc : CFin(o.csd[a][b][k])
      well(k, d) == finite(k) /\ RGt(CAbs2(d), RMul(Ten(-12), RSq(RProd([a \in 1..nc |-> RAdd(RAbs(o.csd[a][a][k][1]), Ten(-300))]))))
      shape(f) == Len(f) = nc /\ \A c \in 1..nc : Len(f[c]) = nf
      one(c, k) == LET d == TLCEval(CDet(m(k))) q == TLCEval(CDet(Minor(m(k), c))) IN
                   ~well(k, d) \/ (IsFin(o.uncorr[c][k]) /\
                      RelNear(RMul(RSq(o.uncorr[c][k]), CAbs2(q)), CAbs2(d), 5))
  IN Fail("uncorrelated noise: inverse diagonal of the inverse CSD", shape(o.uncorr) /\ \A c \in 1..nc : \A k \in 1..nf : one(c, k))
     \cup Fail("correlated plus uncorrelated noise is the total noise",
          shape(o.uncorr) /\ shape(o.corrnoise) /\ \A c \in 1..nc : \A k \in 1..nf :
            (IsFin(o.uncorr[c][k]) /\ IsFin(o.corrnoise[c][k])) =>
              ScNear(RAdd(o.corrnoise[c][k], o.uncorr[c][k]), o.real_csd[c][c][k], 10, RAdd(RAbs(o.uncorr[c][k]), RAbs(o.real_csd[c][c][k]))))

Empty(f) == f = <<>>
PsdFields(o) == <<o.psd, o.real_psd, o.imag_psd>>
CsdFields(o) == <<o.csd, o.real_csd, o.imag_csd, o.real_csd_std, o.imag_csd_std>>
UncFields(o) == <<o.uncorr, o.corrnoise>>
FieldsOf(o, r) == CASE r = "psd" -> PsdFields(o) [] r = "corr" -> <<o.corr>> [] r = "csd" -> CsdFields(o) [] r = "uncorr" -> UncFields(o)

(* s: [have, T, fs, time, names, o] the state before; e: the observed call *)
NewTraces(e) == [r \in 1..Len(e.raw) |-> [c \in 1..Len(e.raw[r]) |-> VScale(RInv(e.gain), e.raw[r][c])]]
TracesNear(T, ref, k) ==
  /\ Len(T) = Len(ref)
  /\ \A r \in 1..Len(ref) : Len(T[r]) = Len(ref[r]) /\ \A c \in 1..Len(ref[r]) :
       AllNear(T[r][c], ref[r][c], k, RAdd(MaxAbs(ref[r][c]), Ten(-300)))
SlopeOf(t, y) == LET mt == VMean(t) d == TLCEval([i \in 1..Len(t) |-> RSub(t[i], mt)]) IN RDiv(RDot(d, y), RDot(d, d))
Deslope(T, t) == [r \in 1..Len(T) |-> [c \in 1..Len(T[r]) |->
                    LET s == SlopeOf(t, T[r][c]) IN VSub(T[r][c], VScale(s, t))]]
NewFails(e) ==
  IF e.dims = 1 \/ e.nnames # Len(e.raw[1]) THEN Fail("wrong shapes raise ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.raw[1][1]) IN
  Fail("traces divided by the gain", TracesNear(e.o.traces, NewTraces(e), 13))
  \cup Fail("time axis", AllNear(e.o.time, IF e.time = <<>> THEN [k \in 1..n |-> RDiv(Rat(k - 1), e.fs)] ELSE e.time, 13, RAdd(MaxAbs(e.o.time), Ten(-300))))
  \cup Fail("frequency axis", AllNear(e.o.freqs, OneFreqs(n, e.fs), 12, e.fs))
  \cup Fail("no results yet", \A r \in Results : \A i \in 1..Len(FieldsOf(e.o, r)) : Empty(FieldsOf(e.o, r)[i]))
  \cup Fail("channel numbers", e.chanok)
MultiOnly == {"ncorr", "ncsd", "nuncorr"}
OpFails(s, e) ==
  LET nch == NCh(s.T)
      have2 == AfterOp(s.have, e.op, nch)
      bad == e.op \in MultiOnly /\ nch = 1
      fresh == CASE e.op = "npsd" -> {"psd"} [] e.op = "ncorr" -> {"corr"} [] e.op = "ncsd" -> {"csd"}
                 [] e.op = "nuncorr" -> have2 \ (s.have \ {"uncorr"}) [] OTHER -> {}
      calc(r) == CASE r = "psd" -> ObjPsdFails(s.T, s.fs, e.o) [] r = "corr" -> ObjCorrFails(s.T, e.o)
                   [] r = "csd" -> ObjCsdFails(s.T, s.fs, e.o) [] r = "uncorr" -> ObjUncorrFails(s.T, s.fs, e.o)
  IN (IF bad THEN Fail("one channel: ValueError", e.exc = "ValueError") ELSE Fail("unexpected exception", e.exc = ""))
     \cup (IF e.op = "nslope"
           THEN Fail("slope removed from every trace", TracesNear(e.o.traces, Deslope(s.T, s.time), 9)
                     \/ \E r \in 1..Len(s.T) : \E c \in 1..nch : RIsZero(MaxAbs(s.T[r][c])))
           ELSE Fail("traces unchanged", e.o.traces = s.T))
     \cup Fail("results are absent or belong to the current traces",
               \A r \in Results : \A i \in 1..Len(FieldsOf(e.o, r)) : Empty(FieldsOf(e.o, r)[i]) = (r \notin have2))
     \cup Fail("other results unchanged", e.exc = "" => \A r \in have2 \ fresh : FieldsOf(e.o, r) = FieldsOf(s.o, r))
     \cup Fail("axes unchanged", e.o.freqs = s.o.freqs /\ e.o.time = s.o.time)
     \cup (IF bad \/ e.exc # "" THEN {} ELSE UNION {calc(r) : r \in {q \in fresh : \A i \in 1..Len(FieldsOf(e.o, q)) : ~Empty(FieldsOf(e.o, q)[i])}})

---------------------------------------------------------- (* generated noise *)
(* e.est: mean periodogram of e.m generated traces; e.pseudo: mean of X^2  *)
(* per frequency; e.cross: mean of conj(X_r) X_(r+1); relative to est      *)
GenFails(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  LET n == Len(e.psd) tol == Frac(6, 100)
      p(k) == IF IsFin(e.psd[k]) THEN e.psd[k] ELSE R0
      small(z, k) == CFin(z) /\ RLe(CAbs2(z), RSq(RMul(tol, p(k))))
      tiny == RMul(Ten(-20), MaxSeq([k \in 1..n |-> p(k)]))
  IN Fail("one row per trace, one column per bin", e.shape = <<e.m, n>>)
     \cup Fail("real finite values", e.real)
     \cup Fail("input spectrum unmodified", e.same)
     \cup (IF e.shape # <<e.m, n>> \/ ~e.stat \/ Len(e.est) # n THEN {} ELSE
       Fail("spectrum converges to the requested one at every frequency",
            \A k \in 1..n : Near(e.est[k], p(k), RAdd(RMul(tol, p(k)), tiny)))
       \cup Fail("random phases", \A k \in 2..n : (2 * (k - 1) # n /\ RGt(p(k), tiny)) => small(e.pseudo[k], k))
       \cup Fail("zero mean", \A k \in 1..n : RGt(p(k), tiny) => RLe(CAbs2(e.mean[k]), RMul(RMul(tol, tol), p(k))))
       \cup Fail("independent rows and calls", \A k \in 1..n : RGt(p(k), tiny) => small(e.cross[k], k) /\ small(e.calls[k], k)))
=============================================================================
