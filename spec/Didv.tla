-------------------------------- MODULE Didv --------------------------------
(***************************************************************************)
(* dI/dV of a TES (C24-C27): the impedance models, their parametrisations, *)
(* the response to a square wave, the processing of square-wave traces and *)
(* the records of the fits.                                                *)
(* Small-signal parameters are a record with fields rsh rp r0 beta l L     *)
(* tau0 gratio tau3, each a sequence holding the value or nothing.         *)
(***************************************************************************)
EXTENDS Num

Fail(name, ok) == IF ok THEN {} ELSE {name}
AllFinM(M) == \A i \in 1..Len(M) : AllFin(M[i])
AllNearD(out, ref, k, scale) == Len(out) = Len(ref) /\ AllFin(out) /\ \A i \in 1..Len(ref) : ScNear(out[i], ref[i], k, scale)
Om(f) == RMul(RMulI(2, PiR), f)
IW(f, tau) == <<R0, RMul(Om(f), tau)>>                \* i omega tau
CSum(s) == <<RSum([i \in 1..Len(s) |-> s[i][1]]), RSum([i \in 1..Len(s) |-> s[i][2]])>>
Tc(z) == <<RSig(z[1], 8), RSig(z[2], 8)>>

------------------------------------------------------- (* small signal *)
P1 == {"rsh", "rp", "L"}
P2 == P1 \cup {"r0", "beta", "l", "tau0"}
P3 == P2 \cup {"gratio", "tau3"}
Given(p, S) == \A f \in S : p[f] # <<>>
Poles(p) == IF Given(p, P3) THEN 3 ELSE IF Given(p, P2) THEN 2 ELSE IF Given(p, P1) THEN 1 ELSE 0
(* documented impedance of the small-signal parameters *)
ZDoc(f, p) ==
  LET np == Poles(p)
      line == CAdd(CRe(RAdd(p.rsh[1], p.rp[1])), IW(f, p.L[1]))
      l == p.l[1]  oml == RSub(R1, l)  r0 == p.r0[1]
      top == RDiv(RMul(RMul(r0, RAdd(Rat(2), p.beta[1])), l), oml)
      den2 == CAdd(C1, IW(f, RDiv(p.tau0[1], oml)))
      den3 == CSub(den2, CDiv(CRe(RDiv(p.gratio[1], oml)), CAdd(C1, IW(f, p.tau3[1]))))
  IN IF np = 1 THEN line
     ELSE CAdd(CAdd(line, CRe(RMul(r0, RAdd(R1, p.beta[1])))), CDiv(CRe(top), IF np = 2 THEN den2 ELSE den3))
CMag(z) == RAdd(RAbs(z[1]), RAbs(z[2]))
ZFails(e) ==
  LET np == Poles(e.p) IN
  IF np = 0 THEN Fail("parameters that fit no model are refused", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"impedance raises an exception"}
  ELSE Fail("impedance follows the documented model at every frequency",
         Len(e.z) = Len(e.f) /\ \A k \in 1..Len(e.f) : CRelNear(e.z[k], ZDoc(e.f[k], e.p), 9))
    \cup Fail("admittance is the reciprocal of the impedance",
         Len(e.y) = Len(e.f) /\ \A k \in 1..Len(e.f) : CRelNear(e.y[k], CInv(ZDoc(e.f[k], e.p)), 9))
(* harmonic h # 0 of a unit square wave that is low for the fraction d of its period, then high *)
SqH(h, d) == LET ph == RMulI(-2, RMul(RMulI(h, d), PiR)) z == CSub(Cis(ph), C1)
             IN CMul(<<R0, RNeg(RInv(RMulI(2 * h, PiR)))>>, z)
(* response of the circuit to the square wave on n bins that hold m periods *)
SqFails(e) ==
  LET np == Poles(e.p) IN
  IF np = 0 THEN Fail("parameters that fit no model are refused", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"square-wave response raises an exception"}
  ELSE
  LET n == e.n  per == n \div e.m
      un == Unit(n)
      hs == {h \in (-(per \div 2))..((per - 1) \div 2) : h # 0}
      R == [h \in hs |-> Tc(CScale(RMul(e.amp, e.p.rsh[1]), CMul(SqH(h, e.duty), CInv(ZDoc(RMulI(h, e.sg), e.p)))))]
      RECURSIVE Sum(_, _)
      Sum(S, j) == IF S = {} THEN R0 ELSE LET h == CHOOSE x \in S : TRUE IN
         RAdd(CMul(R[h], un[((((j * e.m * h) % n) + n) % n) + 1])[1], Sum(S \ {h}, j))
      ref == TLCEval([j \in 1..n |-> Sum(hs, j - 1)])
  IN Fail("response to a square wave is its harmonics times the admittance", AllNearD(e.out, ref, 8, MaxAbs(ref)))

--------------------------------------------- (* pole parametrisation *)
(* q = <<A, tau2>>, <<A, B, tau1, tau2>> or <<A, B, C, tau1, tau2, tau3>> *)
ToPole(p) ==
  LET A1 == RAdd(p.rsh[1], p.rp[1]) IN
  IF Poles(p) = 1 THEN <<A1, RDiv(p.L[1], A1)>>
  ELSE LET A == RAdd(A1, RMul(p.r0[1], RAdd(R1, p.beta[1])))
           oml == RSub(R1, p.l[1])
           B == RMul(RMul(p.r0[1], RDiv(p.l[1], oml)), RAdd(Rat(2), p.beta[1]))
           t1 == RDiv(p.tau0[1], oml)
           t2 == RDiv(p.L[1], A)
       IN IF Poles(p) = 2 THEN <<A, B, t1, t2>> ELSE <<A, B, RDiv(p.gratio[1], oml), t1, t2, p.tau3[1]>>
(* small-signal parameters, in the order (rsh, rp, [r0, beta, l,] L, [tau0, gratio, tau3]), of pole parameters at known resistances *)
FromPole(q, rsh, r0, rp) ==
  IF Len(q) = 2 THEN <<rsh, RSub(q[1], rsh), RMul(q[1], q[2])>>
  ELSE LET A == q[1] B == q[2] rl == RAdd(rsh, rp)
           s == RSub(RAdd(A, r0), rl)        \* r0 (2 + beta)
           oml == RDiv(s, RAdd(s, B))        \* 1 - l
           t1 == IF Len(q) = 4 THEN q[3] ELSE q[4]
           t2 == IF Len(q) = 4 THEN q[4] ELSE q[5]
           base == <<rsh, rp, r0, RSub(RDiv(RSub(A, rl), r0), R1), RSub(R1, oml), RMul(A, t2), RMul(t1, oml)>>
       IN IF Len(q) = 4 THEN base ELSE base \o <<RMul(q[3], oml), q[6]>>
(* magnitude of the terms that cancel when beta and the resistances are derived *)
FromScale(q, rsh, r0, rp) == LET v == FromPole(q, rsh, r0, rp) IN
  [i \in 1..Len(v) |-> IF Len(q) = 2 THEN (IF i = 2 THEN RAdd(RAbs(q[1]), rsh) ELSE RAbs(v[i]))
     ELSE IF i = 4 THEN RAdd(RAbs(v[4]), RDiv(RAdd(RAbs(q[1]), RAdd(rsh, rp)), r0))
     ELSE IF i = 5 THEN RAdd(R1, RAbs(v[5])) ELSE RAbs(v[i])]
(* coefficients, highest power first, of the polynomial whose roots are the fall times *)
Char(q) ==
  IF Len(q) = 2 THEN <<R1, RNeg(q[2])>>
  ELSE IF Len(q) = 4 THEN <<RAdd(q[1], q[2]), RNeg(RMul(q[1], RAdd(q[3], q[4]))), RMul(q[1], RMul(q[3], q[4]))>>
  ELSE LET A == q[1] B == q[2] C == q[3] t1 == q[4] t2 == q[5] t3 == q[6] oc == RSub(R1, C) IN
    << RAdd(RMul(A, oc), B),
       RNeg(RAdd(RAdd(RMul(A, t1), RMul(RMul(A, oc), t2)), RMul(RAdd(A, B), t3))),
       RMul(A, RAdd(RAdd(RMul(t1, t2), RMul(t1, t3)), RMul(t2, t3))),
       RNeg(RMul(RMul(A, t1), RMul(t2, t3))) >>
(* the values xs are all the roots of c, recorded as complex numbers *)
RECURSIVE Expand(_)
Expand(xs) == IF xs = <<>> THEN <<C1>> ELSE        \* product of (x - r)
  LET t == Expand(Tail(xs)) r == xs[1] IN
  [i \in 1..(Len(t) + 1) |-> CSub(IF i <= Len(t) THEN t[i] ELSE <<R0, R0>>, IF i > 1 THEN CMul(r, t[i - 1]) ELSE <<R0, R0>>)]
RECURSIVE ExpAbs(_)
ExpAbs(xs) == IF xs = <<>> THEN <<R1>> ELSE
  LET t == ExpAbs(Tail(xs)) r == CMag(xs[1]) IN
  [i \in 1..(Len(t) + 1) |-> RAdd(IF i <= Len(t) THEN t[i] ELSE R0, IF i > 1 THEN RMul(r, t[i - 1]) ELSE R0)]
RootsOf(xs, c) ==
  /\ Len(xs) = Len(c) - 1 /\ \A i \in 1..Len(xs) : CFin(xs[i])
  /\ LET p == Expand(xs) a == ExpAbs(xs) IN
     \A i \in 1..Len(c) : CNear(p[i], CRe(RDiv(c[i], c[1])), 7, a[i])
(* relative position: simple real roots at least 1e-3 apart are required to 1e-6 *)
Increasing(xs) == \A i \in 1..(Len(xs) - 1) : RLe(xs[i][1], xs[i + 1][1])
FallOk(xs, q) == LET c == Char(q) IN RIsZero(c[1]) \/ (RootsOf(xs, c) /\ Increasing(xs))
ConvFails(e) ==
  IF e.exc # "" THEN {"conversion raises an exception"} ELSE
  LET q == ToPole(e.p)
      np == Poles(e.p)
      back == FromPole(q, e.p.rsh[1], e.p.r0[1], e.p.rp[1])
      sc == FromScale(q, e.p.rsh[1], e.p.r0[1], e.p.rp[1])
  IN Fail("pole parameters of the small-signal parameters", Len(e.q) = Len(q) + 1 /\ (\A i \in 1..Len(q) : RelNear(e.q[i], q[i], 9)) /\ REq(e.q[Len(q) + 1], e.dt))
     \cup Fail("converting back gives the same small-signal parameters",
           Len(e.back) = Len(back) + 1 /\ (\A i \in 1..Len(back) : ScNear(e.back[i], back[i], 9, sc[i])) /\ REq(e.back[Len(back) + 1], e.dt))
     \cup Fail("fall times are the poles of the admittance, shortest first", FallOk(e.fall, q))

------------------------------------------------------ (* processing *)
RECURSIVE KeptFrom(_, _)
KeptFrom(X, i) == IF i > Len(X) THEN <<>> ELSE (IF AllFin(X[i]) THEN <<i>> ELSE <<>>) \o KeptFrom(X, i + 1)
StdV(v) == LET m == VMean(v) IN Sqrt(RDivI(VSumSq([i \in 1..Len(v) |-> RSub(v[i], m)]), Len(v)))
RoundI(x) == ToInt(RatZ(RFloor(RAdd(x, Frac(1, 2)))))
Half == Frac(1, 2)
(* c: raw, fs, sg, amp, rsh, gain, duty, add, dt0 *)
PCtx(c) ==
  LET per == RoundI(RDiv(c.fs, c.sg))
      K == Len(c.raw[1]) \div per
      n == K * per
      cutr == [i \in 1..Len(c.raw) |-> SubSeq(c.raw[i], 1, n)]
      kept == KeptFrom(cutr, 1)
      X == TLCEval([i \in 1..Len(kept) |-> [j \in 1..n |-> RDiv(cutr[kept[i]][j], c.gain)]])
      N == Len(X)
      un == Unit(n)
      dt == RAdd(c.dt0, IF c.add THEN RHalf(RInv(c.sg)) ELSE R0)
      \* harmonic of bin k; the middle bin, whose transform has no imaginary part, is left out
      hof(k) == LET j == FreqIx(k, n) IN IF j % K = 0 /\ k # (n \div 2) + 1 THEN j \div K ELSE 0
      dead == {k \in 1..n : (hof(k) = 0 /\ ~(n % 2 = 1 /\ k = (n \div 2) + 1)) \/ (REq(c.duty, Half) /\ hof(k) % 2 = 0)}
      cand == {k \in 1..n : hof(k) # 0} \ dead
      sf == TLCEval([k \in 1..n |-> IF k \in cand THEN Tc(CScale(RMulI(n, RMul(c.amp, c.rsh)), SqH(hof(k), c.duty))) ELSE C0])
      live == {k \in cand : RGt(CMag(sf[k]), RMul(Ten(-9), RMulI(n, RAbs(RMul(c.amp, c.rsh)))))}
      F(i, k) == CSum([j \in 1..n |-> CScale(X[i][j], CConj(un[(((k - 1) * (j - 1)) % n) + 1]))])
      D == TLCEval([k \in 1..n |-> IF k \in live THEN [i \in 1..N |-> Tc(CDiv(F(i, k), sf[k]))] ELSE <<>>])
      sc == MaxSeq([i \in 1..N |-> MaxAbs(X[i])])
  IN TLCEval([per |-> per, K |-> K, n |-> n, X |-> X, N |-> N, dt |-> dt, D |-> D, live |-> live, dead |-> dead, sc |-> sc,
              \* magnitude against which a bin's rounding is measured
              mag |-> [k \in 1..n |-> IF k \in live THEN RAdd(MaxSeq([i \in 1..N |-> CMag(D[k][i])]), RDiv(RMulI(n, sc), RMul(Ten(3), CMag(sf[k])))) ELSE R0]])
(* indices are those between 25 % and 48 % of a period, edges to within a bin *)
FlatOk(x, fs, ix) ==
  LET sh == RMul(x.dt, fs)
      ph(b) == LET u == RDiv(RSub(Rat(b), sh), Rat(x.per)) IN RSub(u, RatZ(RFloor(u)))
      lo == Frac(1, 4)  hi == Frac(48, 100)
      w == RDiv(Frac(21, 10), Rat(x.per))
      S == {ix[i] : i \in 1..Len(ix)}
      inside(b) == LET p == ph(b) IN RGe(p, RAdd(lo, w)) /\ RLt(p, RSub(hi, w)) /\ RGe(Rat(b), sh) /\ RLt(Rat(b), RAdd(sh, Rat(x.n)))
      near(b) == LET p == ph(b) IN RGe(p, RSub(lo, w)) /\ RLe(p, RAdd(hi, w))
  IN /\ \A i \in 1..Len(ix) : ix[i] \in 0..(x.n - 1) /\ near(ix[i])
     /\ \A b \in 1..(x.n - 1) : inside(b) => b \in S
     /\ Cardinality(S) = Len(ix)
ProcFails(c, x, e) ==
  IF e.exc # "" THEN {"processing raises an exception"} ELSE
  LET o == e.o  n == x.n  N == x.N  sc == x.sc
      tm == TLCEval([j \in 1..n |-> RDivI(RSum([i \in 1..N |-> x.X[i][j]]), N)])
      ms == TLCEval([i \in 1..N |-> VMean(x.X[i])])
      big == Ten(19)
  IN Fail("whole periods are kept, traces with missing values are dropped", Len(o.tmean) = n /\ o.ntraces = N /\ Len(o.traces) = N)
     \cup (IF Len(o.tmean) # n \/ o.ntraces # N \/ Len(o.traces) # N THEN {} ELSE
     Fail("traces in amperes over whole periods", \A i \in 1..N : AllNearD(o.traces[i], x.X[i], 12, sc))
     \cup Fail("mean trace", AllNearD(o.tmean, tm, 11, sc))
     \cup Fail("time offset gains half a period exactly when the phase flip is requested", Near(o.dt0, x.dt, RMul(Ten(-13), RAdd(RAbs(c.dt0), RInv(c.sg)))))
     \cup Fail("time axis starts at the time offset",
           AllNearD(o.time, [j \in 1..n |-> RSub(RDiv(Rat(j - 1), c.fs), x.dt)], 12, RAdd(RDiv(Rat(n), c.fs), RAbs(x.dt))))
     \cup Fail("frequencies of the transform", AllNearD(o.freq, [k \in 1..n |-> RMul(Rat(FreqIx(k, n)), RDiv(c.fs, Rat(n)))], 8, c.fs))
     \cup Fail("offset is the mean of the traces", ScNear(o.offset, VMean(ms), 11, sc))
     \cup Fail("error of the offset", ScNear(o.offset_err, RDiv(StdV(ms), Sqrt(Rat(N))), 9, sc))
     \cup Fail("dI/dV at every harmonic is the mean ratio of trace and square wave",
           Len(o.didvmean) = n /\ \A k \in x.live : CNear(o.didvmean[k], CScale(RInv(Rat(N)), CSum(x.D[k])), 8, x.mag[k]))
     \cup Fail("uncertainty of dI/dV is the standard deviation of the mean at every harmonic",
           Len(o.didvstd) = n /\ \A k \in x.live : \A q \in 1..2 :
              ScNear(o.didvstd[k][q], RDiv(StdV([i \in 1..N |-> x.D[k][i][q]]), Sqrt(Rat(N))), 7, x.mag[k]))
     \cup Fail("frequencies without square wave carry no weight",
           \A k \in x.dead : CFin(o.didvstd[k]) /\ RGe(o.didvstd[k][1], big) /\ RGe(o.didvstd[k][2], big))
     \cup Fail("flat parts lie between a quarter and half of each period after the offset", FlatOk(x, c.fs, o.flat)))
NewFails(e) ==
  LET q == RDiv(e.fs, e.sg)  whole == IsIntR(q) IN
  Fail("a rate that is no multiple of the square-wave frequency is refused unless resampling is asked for",
       IF whole \/ e.auto THEN e.exc = "" ELSE e.exc = "ValueError")
  \cup (IF e.exc # "" THEN {} ELSE
       Fail("resampled data have a rate that is a multiple of the square-wave frequency",
           LET u == RDiv(e.ufs, e.sg) IN Near(u, Rat(RoundI(u)), Ten(-9)) /\ (whole => REq(e.ufs, e.fs)))
       \cup Fail("resampled data are those of the resampling function", e.sameraw))

---------------------------------------------------------- (* fits *)
(* model and derivatives at pole parameters q and delay dt *)
ZPole(f, q) ==
  LET a == CScale(q[1], CAdd(C1, IW(f, IF Len(q) = 2 THEN q[2] ELSE IF Len(q) = 4 THEN q[4] ELSE q[5])))
      D == IF Len(q) = 4 THEN CAdd(C1, IW(f, q[3])) ELSE CSub(CAdd(C1, IW(f, q[4])), CDiv(CRe(q[3]), CAdd(C1, IW(f, q[6]))))
  IN IF Len(q) = 2 THEN a ELSE CAdd(a, CDiv(CRe(q[2]), D))
Delay(f, dt) == Tc(Cis(RNeg(RMul(Om(f), dt))))
YPole(f, q, dt) == CMul(Delay(f, dt), Tc(CInv(Tc(ZPole(f, q)))))
(* derivatives of the delayed admittance with respect to q and dt *)
Deriv(f, q, dt) ==
  LET zz == Tc(ZPole(f, q))  E == Delay(f, dt)  yz == Tc(CInv(zz))  mE == CNeg(Tc(CMul(E, CMul(yz, yz))))
      w == <<R0, RSig(Om(f), 8)>>
      dA(t2) == CMul(mE, CAdd(C1, IW(f, t2)))
      dt2 == CMul(mE, CScale(q[1], w))
      ddt == CNeg(CMul(w, CMul(E, yz)))
  IN IF Len(q) = 2 THEN <<dA(q[2]), dt2, ddt>>
     ELSE LET u3 == IF Len(q) = 4 THEN C1 ELSE CAdd(C1, IW(f, q[6]))
              D == IF Len(q) = 4 THEN CAdd(C1, IW(f, q[3])) ELSE CSub(CAdd(C1, IW(f, q[4])), CDiv(CRe(q[3]), u3))
              iD == Tc(CInv(Tc(D)))
              dB == Tc(CMul(mE, iD))
              mD == Tc(CScale(RNeg(q[2]), CMul(dB, iD)))        \* d ci / d D
              dt1 == CMul(mD, w)
          IN IF Len(q) = 4 THEN <<dA(q[4]), dB, dt1, dt2, ddt>>
             ELSE <<dA(q[5]), dB, CMul(mD, CNeg(CInv(u3))), dt1, dt2, CMul(mD, CMul(CScale(q[3], w), CInv(CMul(u3, u3)))), ddt>>
(* weighted residuals of the recorded dI/dV, real and imaginary parts; only *)
(* frequencies with weight matter                                           *)
Used(c, fc) == {k \in 1..Len(c.freq) : (fc = <<>> \/ RLt(RAbs(c.freq[k]), fc[1])) /\ RLt(c.std[k][1], Ten(15))}
Ord(S) == LET RECURSIVE O(_) O(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o O(T \ {m}) IN O(S)
WC(z, s) == <<RDiv(z[1], s[1]), RDiv(z[2], s[2])>>
CostAt(c, ks, q, dt) ==
  RHalf(RSum(TLCEval([i \in 1..Len(ks) |-> LET k == ks[i]
     r == WC(Tc(CSub(c.didv[k], YPole(c.freq[k], q, dt))), c.std[k])
     IN RSig(RAdd(RSq(r[1]), RSq(r[2])), 8)])))
QOf(pr, np) == CASE np = 1 -> <<pr.A, pr.tau2>> [] np = 2 -> <<pr.A, pr.B, pr.tau1, pr.tau2>> [] OTHER -> <<pr.A, pr.B, pr.C, pr.tau1, pr.tau2, pr.tau3>>
ParOrder(np) == CASE np = 1 -> <<"A", "tau2", "dt">> [] np = 2 -> <<"A", "B", "tau1", "tau2", "dt">> [] OTHER -> <<"A", "B", "C", "tau1", "tau2", "tau3", "dt">>
SsOrder(np) == CASE np = 1 -> <<"rsh", "rp", "L">> [] np = 2 -> <<"rsh", "rp", "r0", "beta", "l", "L", "tau0">> [] OTHER -> <<"rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3">>
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* cov is the inverse of J^T J to within the conditioning *)
InvOk(H, cov) == LET n == Len(H) IN \A i \in 1..n : \A j \in 1..n :
  LET S == RSum([k \in 1..n |-> RAbs(RMul(H[i][k], cov[k][j]))])
      v == RSum([k \in 1..n |-> RMul(H[i][k], cov[k][j])])
      nrm == Sqrt(RAbs(RMul(H[i][i], cov[j][j])))
  IN RLe(RAbs(RSub(v, IF i = j THEN R1 ELSE R0)), RMul(Ten(-4), RAdd(S, nrm)))
(* two parameters that change the response in the same way *)
Degenerate(H) == \E i, j \in 1..Len(H) : i < j /\ RGe(RSq(H[i][j]), RMul(RSub(R1, Ten(-9)), RMul(H[i][i], H[j][j])))
RecOk(r, np, names) == DOMAIN r.params = names /\ DOMAIN r.errors = names /\ Len(r.cov) = Cardinality(names)
                       /\ (\A f \in names : IsFin(r.params[f])) /\ IsFin(r.cost)
FitFails(c, e) ==
  IF e.np \notin 1..3 THEN Fail("other numbers of poles are refused with ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"the fit raises an exception"}
  ELSE
  LET r == e.r  np == e.np  names == SetOf(ParOrder(np))
  IN IF ~RecOk(r, np, names) THEN {"the record holds parameters, errors and covariance of the model"} ELSE
  LET pr == r.params  q == QOf(pr, np)  ord == ParOrder(np)  m == Len(ord)
      ks == Ord(Used(c, e.fc))
      ss == FromPole(q, c.rsh, c.r0, c.rp)  so == SsOrder(np)  sc == FromScale(q, c.rsh, c.r0, c.rp)
      J == TLCEval([i \in 1..Len(ks) |-> LET d == Deriv(c.freq[ks[i]], q, pr.dt) IN [a \in 1..m |-> WC(Tc(d[a]), c.std[ks[i]])]])
      H == TLCEval([a \in 1..m |-> [b \in 1..m |-> RSig(RSum([i \in 1..Len(ks) |-> RAdd(RMul(J[i][a][1], J[i][b][1]), RMul(J[i][a][2], J[i][b][2]))]), 8)]])
      res == TLCEval([i \in 1..Len(ks) |-> WC(Tc(CSub(c.didv[ks[i]], YPole(c.freq[ks[i]], q, pr.dt))), c.std[ks[i]])])
      cost == RHalf(RSum(TLCEval([i \in 1..Len(ks) |-> RSig(CAbs2(res[i]), 8)])))
      g == TLCEval([a \in 1..m |-> RSig(RSum([i \in 1..Len(ks) |-> RAdd(RMul(J[i][a][1], res[i][1]), RMul(J[i][a][2], res[i][2]))]), 8)])
      good == AllFinM(r.cov) /\ InvOk(H, r.cov)
      decr == RHalf(RDot(g, MatVec(r.cov, g)))
  IN Fail("cost is half the weighted squared residual of the parameters at the fitted frequencies",
          Near(r.cost, cost, RAdd(RMul(Ten(-6), cost), Ten(-8))))
     \cup Fail("errors are the square roots of the covariance's diagonal",
          \A i \in 1..m : IsFin(r.errors[ord[i]]) => (RGe(r.errors[ord[i]], R0) /\ RelNear(RSq(r.errors[ord[i]]), r.cov[i][i], 8)))
     \cup Fail("covariance is the inverse of the curvature at the parameters", good \/ (~AllFinM(r.cov) /\ Degenerate(H)))
     \cup Fail("the parameters are at the optimum", ~good \/ e.edge \/ RLe(RAbs(decr), RAdd(Frac(1, 50), RMul(Ten(-4), cost))))
     \cup Fail("small-signal parameters belong to the pole parameters", DOMAIN r.ss = SetOf(so) \cup {"dt"} /\
          (\A i \in 1..Len(so) : ScNear(r.ss[so[i]], ss[i], 8, sc[i])) /\ REq(r.ss.dt, pr.dt))
     \cup Fail("fall times are the poles of the admittance, shortest first", FallOk(r.fall, q))
     \cup Fail("dI/dV at zero frequency", RelNear(r.didv0, RInv(ZPole(R0, q)[1]), 7))
     \cup (IF e.truth = <<>> THEN {} ELSE
       Fail("the fit is at least as good as the parameters that generated the data",
          RLe(cost, RAdd(RMul(RAdd(R1, Ten(-3)), CostAt(c, ks, SubSeq(e.truth, 1, m - 1), e.truth[m])), Frac(1, 50)))))
(* pseudo-inverse of a covariance in which unknown parameters have zero rows *)
PInv(M) ==
  LET n == Len(M)  S == Ord({i \in 1..n : ~RIsZero(M[i][i])})  m == Len(S)
      sub == [a \in 1..m |-> [b \in 1..m |-> M[S[a]][S[b]]]]
      cols == TLCEval([b \in 1..m |-> Gauss(sub, [a \in 1..m |-> IF a = b THEN R1 ELSE R0])])
      ix(i) == CHOOSE a \in 1..m : S[a] = i
  IN [i \in 1..n |-> [j \in 1..n |-> IF i \in SetOf(S) /\ j \in SetOf(S) THEN cols[ix(j)][ix(i)] ELSE R0]]
PP(v, np) == LET g(i) == <<v[i]>> IN
  CASE np = 1 -> [rsh |-> g(1), rp |-> g(2), L |-> g(3), r0 |-> <<>>, beta |-> <<>>, l |-> <<>>, tau0 |-> <<>>, gratio |-> <<>>, tau3 |-> <<>>]
    [] np = 2 -> [rsh |-> g(1), rp |-> g(2), r0 |-> g(3), beta |-> g(4), l |-> g(5), L |-> g(6), tau0 |-> g(7), gratio |-> <<>>, tau3 |-> <<>>]
    [] OTHER -> [rsh |-> g(1), rp |-> g(2), r0 |-> g(3), beta |-> g(4), l |-> g(5), L |-> g(6), tau0 |-> g(7), gratio |-> g(8), tau3 |-> g(9)]
(* half the squared weighted residual of the response plus that of the priors *)
PCost(c, ks, np, v, pri, Pi) ==
  LET q == TLCEval(ToPole(PP(v, np)))  d == VSub(pri, v)
      data == RSum(TLCEval([i \in 1..Len(ks) |-> LET k == ks[i]
          r == WC(CSub(CScale(c.rsh, c.didv[k]), CScale(v[1], YPole(c.freq[k], q, v[Len(v)]))), <<RMul(c.rsh, c.std[k][1]), RMul(c.rsh, c.std[k][2])>>)
          IN RSig(RAdd(RSq(r[1]), RSq(r[2])), 8)]))
  IN RHalf(RAdd(data, RDot(d, MatVec(Pi, d))))
POrder(np) == SsOrder(np) \o <<"dt">>
PriFails(c, e) ==
  IF e.np \notin 1..3 THEN Fail("other numbers of poles are refused with ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"the fit raises an exception"}
  ELSE
  LET r == e.r  np == e.np  ord == POrder(np)  m == Len(ord) IN
  IF ~RecOk(r, np, SetOf(ord)) THEN {"the record holds parameters, errors and covariance of the model"} ELSE
  LET v == [i \in 1..m |-> r.params[ord[i]]]
      Pi == TLCEval(PInv(e.pcov))
      ks == Ord(Used(c, e.fc))
      cost == TLCEval(PCost(c, ks, np, v, e.pri, Pi))
      q == TLCEval(ToPole(PP(v, np)))
  IN Fail("cost is half the weighted squared residual of response and priors at the parameters",
          Near(r.cost, cost, RAdd(RMul(Ten(-6), cost), Ten(-7))))
     \cup Fail("errors are the square roots of the covariance's diagonal",
          \A i \in 1..m : IsFin(r.errors[ord[i]]) => (RGe(r.errors[ord[i]], R0) /\ RelNear(RSq(r.errors[ord[i]]), r.cov[i][i], 8)))
     \cup Fail("fall times are the poles of the admittance, shortest first", FallOk(r.fall, q))
     \cup Fail("dI/dV at zero frequency", RelNear(r.didv0, RInv(ZPole(R0, q)[1]), 7))
     \cup Fail("the record keeps the priors", r.pri = e.pri /\ r.pcov = e.pcov)
     (* the fit estimates its covariance only roughly *)
     \cup Fail("known parameters are not less certain than their priors", np = 3 \/
          \A i \in 1..m : RIsZero(e.pcov[i][i]) \/ ~IsFin(r.errors[ord[i]]) \/ RLe(RSq(r.errors[ord[i]]), RMul(Frac(25, 1), e.pcov[i][i])))
     \cup (IF e.truth = <<>> \/ np = 3 THEN {} ELSE      \* three poles: other minima
       Fail("the fit is at least as good as the parameters that generated the data",
          RLe(cost, RAdd(RMul(RAdd(R1, Ten(-3)), PCost(c, ks, np, e.truth, e.pri, Pi)), Frac(1, 20)))))

(* have: the pole counts fitted so far *)
AvailFails(have, e) ==
  Fail("a record is available exactly after its fit", e.exc = "" /\ (e.empty = (e.np \notin have)))
  \cup Fail("other fits and repeated processing keep a record", e.same)
=============================================================================
