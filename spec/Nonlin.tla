------------------------------- MODULE Nonlin -------------------------------
(***************************************************************************)
(* Pulse shapes made of exponentials and their fits in frequency domain    *)
(* (C29), and the muon-tail fit (C30).                                     *)
(*                                                                         *)
(* A pulse is a sum of terms c exp(-(t - t0)/tau), t >= t0, given as a     *)
(* sequence of <<c, tau>>; its Fourier transform is                        *)
(*   exp(-i w t0) SUM c tau / (1 + i w tau),                               *)
(* compared, times sqrt(df), with the discrete transform over sqrt(fs n).  *)
(* Parameters are sequences in the order of the code's guesses:            *)
(*   1: A tauf t0   2: A taur tauf t0   3: A B taur tauf1 tauf2 t0         *)
(*   4: A B C taur tauf1 tauf2 tauf3 t0   0 (muon tail): A tau             *)
(***************************************************************************)
EXTENDS Num
Fail(name, ok) == IF ok THEN {} ELSE {name}
NPar(np) == CASE np = 0 -> 2 [] np = 1 -> 3 [] np = 2 -> 4 [] np = 3 -> 6 [] OTHER -> 8
T8(x) == RSig(x, 8)
Sh(z) == <<RSig(z[1], 8), RSig(z[2], 8)>>
(* time at which exp(-t/b) - exp(-t/a) is extremal, and its value there *)
TPeak(a, b) == T8(RDiv(RMul(Ln(T8(RDiv(a, b))), RMul(a, b)), RSub(a, b)))
UPeak(a, b) == LET t == TPeak(a, b) IN T8(RSub(Exp(RNeg(RDiv(t, b))), Exp(RNeg(RDiv(t, a)))))
(* two poles: with sc the amplitude is the height of the pulse *)
Amp2(A, a, b, sc) == IF sc THEN T8(RDiv(A, UPeak(a, b))) ELSE A
Terms(np, p, tr, sc) ==
  CASE np = 0 -> <<<<p[1], p[2]>>>>
    [] np = 1 -> LET c == Amp2(p[1], tr, p[2], sc) IN <<<<c, p[2]>>, <<RNeg(c), tr>>>>
    [] np = 2 -> LET c == Amp2(p[1], p[2], p[3], sc) IN <<<<c, p[3]>>, <<RNeg(c), p[2]>>>>
    [] np = 3 -> <<<<p[1], p[4]>>, <<p[2], p[5]>>, <<RNeg(RAdd(p[1], p[2])), p[3]>>>>
    [] OTHER -> <<<<p[1], p[5]>>, <<p[2], p[6]>>, <<p[3], p[7]>>, <<RNeg(RAdd(p[1], RAdd(p[2], p[3]))), p[4]>>>>
T0(np, p) == IF np = 0 THEN R0 ELSE p[Len(p)]
Omega(k, n, fs) == T8(RDivI(RMul(RMulI(2 * FreqIx(k, n), PiR), fs), n))
(* 1 / (1 + i w tau) *)
Pole(w, tau) == LET x == RMul(w, tau) d == RAdd(R1, RSq(x)) IN Sh(<<RInv(d), RNeg(RDiv(x, d))>>)
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN C0 ELSE CAdd(s[1], CSum(Tail(s)))
Phase(w, t0) == IF RIsZero(t0) THEN C1 ELSE Sh(Cis(RNeg(RMul(w, t0))))
Model(np, p, tr, sc, w) == LET T == Terms(np, p, tr, sc) IN
  Sh(CMul(CSum([i \in 1..Len(T) |-> CScale(RMul(T[i][1], T[i][2]), Pole(w, T[i][2]))]), Phase(w, T0(np, p))))
(* derivatives of the model without its phase: of a coefficient and of a time constant *)
DC(w, tau) == CScale(tau, Pole(w, tau))
DTau(w, c, tau) == LET q == Pole(w, tau) IN CScale(c, Sh(CMul(q, q)))
Deriv(np, p, tr, sc, w) ==
  LET T == Terms(np, p, tr, sc)
      ph == Phase(w, T0(np, p))
      dm(i) == DTau(w, T[i][1], T[i][2])
      dc(i, j) == CSub(DC(w, T[i][2]), DC(w, T[j][2]))
      dt0 == CMul(<<R0, RNeg(w)>>, CSum([i \in 1..Len(T) |-> CScale(T[i][1], DC(w, T[i][2]))]))
      two(A, a, b) ==                    \* derivatives by A, a (rise), b (fall)
        LET u == UPeak(a, b) t == TPeak(a, b) shape == dc(1, 2)
            ua == RNeg(RMul(RDiv(t, RSq(a)), Exp(RNeg(RDiv(t, a)))))      \* the extremum moves at second order only
            ub == RMul(RDiv(t, RSq(b)), Exp(RNeg(RDiv(t, b))))
            f(du) == IF sc THEN RNeg(RDiv(RMul(A, du), RSq(u))) ELSE R0
        IN <<IF sc THEN CScale(RInv(u), shape) ELSE shape, CAdd(CScale(f(ua), shape), dm(2)), CAdd(CScale(f(ub), shape), dm(1))>>
      D == CASE np = 0 -> <<DC(w, p[2]), dm(1)>>
             [] np = 1 -> LET d == two(p[1], tr, p[2]) IN <<d[1], d[3], dt0>>
             [] np = 2 -> LET d == two(p[1], p[2], p[3]) IN <<d[1], d[2], d[3], dt0>>
             [] np = 3 -> <<dc(1, 3), dc(2, 3), dm(3), dm(1), dm(2), dt0>>
             [] OTHER -> <<dc(1, 4), dc(2, 4), dc(3, 4), dm(4), dm(1), dm(2), dm(3), dt0>>
  IN [i \in 1..Len(D) |-> Sh(CMul(D[i], ph))]
(* the pulse in time domain, moved by whole bins, nothing before or after it *)
TimeModel(np, p, tr, sc, n, fs, s) == LET T == TLCEval(Terms(np, p, tr, sc)) IN
  [i \in 1..n |-> LET j == i - 1 - s IN IF j < 0 \/ j >= n THEN R0 ELSE
     LET t == RDiv(Rat(j), fs) IN RSum([m \in 1..Len(T) |-> RMul(T[m][1], Exp(RNeg(RDiv(t, T[m][2]))))])]

---------------------------------------------------------------- (* models *)
Abs1(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
ModelScale(np, p, tr, sc) == LET T == Terms(np, p, tr, sc) IN Abs1([i \in 1..Len(T) |-> RMul(T[i][1], T[i][2])])
FreqFails(e) ==
  IF e.exc # "" THEN {"the model raises an exception"} ELSE
  LET df == Sqrt(T8(RDivI(e.fs, e.n)))
      S == RMul(df, ModelScale(e.np, e.p, e.tr, e.sc))
  IN Fail("the frequency model is the Fourier transform of the pulse",
       Len(e.v) = Len(e.k) /\ \A i \in 1..Len(e.k) : CFin(e.v[i]) /\
          CNear(e.v[i], CScale(df, Model(e.np, e.p, e.tr, e.sc, Omega(e.k[i], e.n, e.fs))), 9, S))
FloorI(x) == ToInt(RatZ(RFloor(x)))
TimeFails(e) ==
  IF e.exc # "" THEN {"the model raises an exception"} ELSE
  LET x == RMul(e.p[Len(e.p)], e.fs)
      near == FloorI(RAdd(x, RHalf(R1)))
      whole == RLe(RAbs(RSub(x, Rat(near))), Ten(-9))
      shifts == IF whole THEN {near} ELSE {FloorI(x), FloorI(x) + 1}
      T == Terms(e.np, e.p, e.tr, e.sc)
      S == Abs1([i \in 1..Len(T) |-> T[i][1]])
  IN Fail("the time model is the pulse shifted by whole bins",
       Len(e.v) = e.n /\ AllFin(e.v) /\ \E s \in shifts :
          LET m == TLCEval(TimeModel(e.np, e.p, e.tr, e.sc, e.n, e.fs, s)) IN \A i \in 1..e.n : ScNear(e.v[i], m[i], 9, S))

------------------------------------------------------------------ (* fits *)
(* bins that carry weight: not the mean of a pulse fit *)
Bins(e) == LET S == {k \in 1..Len(e.x) : (e.np = 0 \/ k > 1) /\ IsFin(e.psd[k]) /\ ~RIsZero(e.psd[k])}
               RECURSIVE O(_) O(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o O(T \ {m})
           IN O(S)
Ctx(e) ==
  LET n == Len(e.x)  un == Unit(n)  ks == Bins(e)
      Y == TLCEval(DFT(e.x, un))
      nrm == Sqrt(T8(RMulI(n, e.fs)))
      df == Sqrt(T8(RDivI(e.fs, n)))
      wt == TLCEval([i \in 1..Len(ks) |-> T8(RInv(Sqrt(RDiv(e.psd[ks[i]], e.errscale))))])
  IN [n |-> n, ks |-> ks, wt |-> wt, df |-> df,
      om |-> TLCEval([i \in 1..Len(ks) |-> Omega(ks[i], n, e.fs)]),
      y |-> TLCEval([i \in 1..Len(ks) |-> Sh(CScale(RDiv(wt[i], nrm), Y[ks[i]]))])]
Resid(c, e, p) == TLCEval([i \in 1..Len(c.ks) |->
   Sh(CSub(c.y[i], CScale(RMul(c.df, c.wt[i]), Model(e.np, p, e.tr, e.sc, c.om[i]))))])
Chi2(r) == RSum([i \in 1..Len(r) |-> T8(CAbs2(r[i]))])
Jac(c, e, p) == TLCEval([i \in 1..Len(c.ks) |-> LET d == Deriv(e.np, p, e.tr, e.sc, c.om[i]) s == RMul(c.df, c.wt[i]) IN
   [a \in 1..Len(d) |-> Sh(CScale(s, d[a]))]])
Dot2(a, b) == RAdd(RMul(a[1], b[1]), RMul(a[2], b[2]))
Hess(J, m) == TLCEval([a \in 1..m |-> [b \in 1..m |-> T8(RSum([i \in 1..Len(J) |-> Dot2(J[i][a], J[i][b])]))]])
Grad(J, r, m) == TLCEval([a \in 1..m |-> T8(RSum([i \in 1..Len(J) |-> Dot2(J[i][a], r[i])]))])
(* cov is the inverse of H up to its conditioning *)
InvOk(H, cov) == LET n == Len(H) IN \A i \in 1..n : \A j \in 1..n :
  LET S == RSum([k \in 1..n |-> RAbs(RMul(H[i][k], cov[k][j]))])
      v == RSum([k \in 1..n |-> RMul(H[i][k], cov[k][j])])
      nrm == Sqrt(RAbs(RMul(H[i][i], cov[j][j])))
  IN RLe(RAbs(RSub(v, IF i = j THEN R1 ELSE R0)), RMul(Ten(-4), RAdd(S, nrm)))
AllFinM(M) == \A i \in 1..Len(M) : AllFin(M[i])
Inside(v, lo, hi, i) == RLe(lo[i], v[i]) /\ RLe(v[i], hi[i])
(* a parameter on (or next to) its bound *)
AtBound(v, lo, hi, i) == (IsFin(lo[i]) /\ RelNear(v[i], lo[i], 3)) \/ (IsFin(hi[i]) /\ RelNear(v[i], hi[i], 3))
(* two exponentials that cannot be told apart leave the covariance undetermined *)
Distinct(e, v) == LET T == Terms(e.np, v, e.tr, e.sc) IN \A i, j \in 1..Len(T) : i < j => ~RLe(RAbs(RSub(T[i][2], T[j][2])), RMul(Frac(1, 20), RAbs(T[i][2])))
FitFails(e) ==
  IF e.exc # "" THEN {"the fit raises an exception"} ELSE
  LET v == e.v  m == NPar(e.np) IN
  IF Len(v) # m \/ ~AllFin(v) THEN {"the fit returns the parameters of its model"} ELSE
  LET c == Ctx(e)
      r == Resid(c, e, v)
      chi == Chi2(r)
      want == IF e.np = 0 THEN chi ELSE RDivI(chi, c.n - m)
      lo == e.lo hi == e.hi
      dist == Distinct(e, v)
      inb == \A i \in 1..m : (IsFin(lo[i]) => RLe(lo[i], v[i])) /\ (IsFin(hi[i]) => RLe(v[i], hi[i]))
      free == \A i \in 1..m : ~AtBound(v, lo, hi, i)
  IN Fail("the parameters are inside the bounds", inb)
     \cup Fail("chi-square belongs to the parameters", ~e.full \/ Near(e.chi2, want, RAdd(RMul(Ten(-6), want), Ten(-8))))
     \cup Fail("without full return the same parameters", e.vshort = v)
     \cup (IF ~e.full \/ ~dist THEN {} ELSE
       Fail("errors are the square roots of the covariance's diagonal", Len(e.err) = m /\ Len(e.cov) = m /\
         \A i \in 1..m : IsFin(e.err[i]) /\ IsFin(e.cov[i][i]) /\ RGe(e.err[i], R0) /\ RelNear(RSq(e.err[i]), e.cov[i][i], 9)))
     \cup (IF ~free \/ ~e.full \/ ~dist THEN {} ELSE
       LET J == Jac(c, e, v)  H == Hess(J, m)  g == Grad(J, r, m)
       IN Fail("covariance is the inverse curvature at the parameters", AllFinM(e.cov) /\ InvOk(H, e.cov))
          \cup Fail("the parameters are at a minimum", ~e.judge \/ ~AllFinM(e.cov) \/ RLe(RDot(g, MatVec(e.cov, g)), RAdd(Frac(1, 20), RMul(Ten(-4), chi)))))
     \cup (IF e.truth = <<>> THEN {} ELSE
       Fail("the fit is at least as good as the parameters that generated the data",
         RLe(chi, RAdd(RMul(RAdd(R1, Ten(-3)), Chi2(Resid(c, e, e.truth))), Frac(1, 20)))))
(* the weighted residuals and the statistic the object offers at any parameters, with the data of its last fit *)
ResidFails(e) ==
  IF e.exc # "" THEN {"the residuals raise an exception"} ELSE
  LET c == Ctx(e)  r == Resid(c, e, e.q)  n == c.n  m == NPar(e.np)
      S == TLCEval([i \in 1..Len(r) |-> RAdd(Abs1(c.y[i]), Abs1(CSub(c.y[i], r[i])))])
      chi == Chi2(r)
      want == IF e.np = 0 THEN chi ELSE RDivI(chi, n - m)
      dc == {k \in 1..n : \A i \in 1..Len(c.ks) : c.ks[i] # k}
  IN Fail("residuals are those of every bin, real and imaginary part in turn", Len(e.res) = 2 * n /\ AllFin(e.res)
       /\ (\A i \in 1..Len(r) : LET k == c.ks[i] IN ScNear(e.res[2 * k - 1], r[i][1], 8, S[i]) /\ ScNear(e.res[2 * k], r[i][2], 8, S[i]))
       /\ \A k \in dc : RLe(RAdd(RAbs(e.res[2 * k - 1]), RAbs(e.res[2 * k])), Ten(-6)))
     \cup Fail("the statistic of a model", IsFin(e.stat) /\ Near(e.stat, want, RAdd(RMul(Ten(-8), RAdd(want, RSum([i \in 1..Len(S) |-> T8(RSq(S[i]))]))), Ten(-9))))
BadFails(e) == Fail("wrong arguments are refused with ValueError", e.exc = "ValueError")
(* a fit of a used object against the same fit of a new one *)
SameFails(e) == Fail("a repeated fit does not depend on the history of its object", e.same)
=============================================================================
