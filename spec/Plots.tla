------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What the plotting functions draw.  A figure is a sequence of panels; a  *)
(* panel holds series of points (lines or markers) and error bars.  For    *)
(* every call this module says which panels must appear and which curves   *)
(* each of them holds, in terms of the state of the plotted object; no     *)
(* other curve may appear, figures of other calls and the object itself    *)
(* stay as they are, and files are written exactly when asked for.         *)
(***************************************************************************)
EXTENDS Num
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
IsFin2(p) == IsFin(p[1]) /\ IsFin(p[2])
Pairs(x, y) == TLCEval(IF Len(x) # Len(y) THEN <<>> ELSE SelectSeq([i \in 1..Len(x) |-> <<x[i], y[i]>>], IsFin2))
Span(v) == LET f == SelectSeq(v, IsFin) IN RAdd(MaxAbs(f), Ten(-300))
\* a pair of sequences of points agree
RelT(a, b, t) == RLe(RAbs(RSub(a, b)), RMul(t, RAdd(RAbs(a), RAbs(b))))
NearX(a, b, top) == RLe(RAbs(RSub(a, b)), RAdd(RMul(Ten(-9), RAbs(b)), RMul(Ten(-12), top)))
SamePts(d, w, k) == /\ Len(d) = Len(w)
                    /\ LET top == TLCEval(MaxAbs([i \in 1..Len(w) |-> w[i][1]])) IN \A i \in 1..Len(d) : NearX(d[i][1], w[i][1], top) /\ RLe(RAbs(RSub(d[i][2], w[i][2])), RMul(Ten(-9), RAdd(RAbs(w[i][2]), k)))

(*************************** curves ****************************************)
\* y is drawn as it is; small is the scale below which y need not be exact
C(x, y, names) == [t |-> "is", x |-> x, y |-> y, n |-> names, s |-> R0]
Cs(x, y, names, s) == [t |-> "is", x |-> x, y |-> y, n |-> names, s |-> s]
\* the square root of y is drawn (nothing where y is negative)
Cr(x, y, names) == [t |-> "root", x |-> x, y |-> y, n |-> names, s |-> R0]
\* a straight line from the origin to the extreme of x, with slope m
Ray(x, m) == [t |-> "ray", x |-> x, y |-> <<m>>, n |-> <<>>, s |-> R0]
\* y up to a constant baseline
Cb(x, y) == [t |-> "base", x |-> x, y |-> y, n |-> <<>>, s |-> R0]
\* a vertical line
V(x) == [t |-> "vert", x |-> <<x>>, y |-> <<>>, n |-> <<>>, s |-> R0]
NonNeg2(p) == RGe(p[2], R0)
Extreme(x) ==       \* the largest if the largest in magnitude is positive, else the smallest
  LET f == SelectSeq(x, IsFin)
      hi == CHOOSE i \in 1..Len(f) : \A j \in 1..Len(f) : RLe(f[j], f[i])
      lo == CHOOSE i \in 1..Len(f) : \A j \in 1..Len(f) : RLe(f[i], f[j])
  IN IF Len(f) = 0 THEN R0 ELSE IF RGe(f[hi], RNeg(f[lo])) THEN f[hi] ELSE f[lo]
Fits(c, s) ==
  LET d == Pairs(s.x, s.y) IN
  CASE c.t = "is" -> SamePts(d, Pairs(c.x, c.y), c.s)
    [] c.t = "is2" -> LET w == Pairs(c.x, c.y)      \* abscissae with the scale of the ordinates
                      IN /\ Len(d) = Len(w)
                         /\ \A i \in 1..Len(d) : RLe(RAbs(RSub(d[i][1], w[i][1])), RMul(Ten(-9), c.s)) /\ RLe(RAbs(RSub(d[i][2], w[i][2])), RMul(Ten(-9), c.s))
    [] c.t = "root" -> LET w == SelectSeq(Pairs(c.x, c.y), NonNeg2)
                       IN /\ Len(d) = Len(w)
                          /\ \A i \in 1..Len(d) : RelT(d[i][1], w[i][1], Ten(-9)) /\ RGe(d[i][2], R0) /\ RelT(RSq(d[i][2]), w[i][2], Ten(-9))
    [] c.t = "ray" -> LET e == Extreme(c.x) sc == RAdd(RAbs(e), Ten(-300))
                      IN /\ Len(d) >= 2
                         /\ \A i \in 1..Len(d) : RLe(RAbs(RSub(d[i][2], RMul(d[i][1], c.y[1]))), RMul(Ten(-9), RMul(sc, RAbs(c.y[1]))))
                         /\ \E i \in 1..Len(d) : RLe(RAbs(d[i][1]), RMul(Ten(-9), sc))
                         /\ \E i \in 1..Len(d) : RLe(RAbs(RSub(d[i][1], e)), RMul(Ten(-9), sc))
    [] c.t = "base" -> LET w == Pairs(c.x, c.y) k == MaxAbs([i \in 1..Len(w) |-> w[i][2]])
                       IN /\ Len(d) = Len(w)
                          /\ \A i \in 1..Len(d) : RelT(d[i][1], w[i][1], Ten(-9))
                                /\ RLe(RAbs(RSub(RSub(d[i][2], w[i][2]), RSub(d[1][2], w[1][2]))), RMul(Ten(-9), k))
    \* the argument of complex numbers
    [] c.t = "angle" -> LET W == TLCEval(SelectSeq([i \in 1..Len(c.x) |-> <<c.x[i], c.y[i]>>], LAMBDA q : CFin(q[2])))
                        IN /\ Len(d) = Len(W)
                           /\ \A i \in 1..Len(d) : RelT(d[i][1], W[i][1], Ten(-9)) /\ RLe(RAbs(d[i][2]), Rat(4))
                                 /\ LET u == Cis(RSig(d[i][2], 6)) z == W[i][2] m == RAdd(RAbs(z[1]), RAbs(z[2])) IN
                                    /\ RLe(RAbs(RSub(RMul(u[1], z[2]), RMul(u[2], z[1]))), RMul(Ten(-8), m))
                                    /\ RGe(RAdd(RMul(u[1], z[1]), RMul(u[2], z[2])), R0)
    \* some consecutive points of a curve; of a curve with a free baseline
    [] c.t = "part" -> LET w == Pairs(c.x, c.y) IN
                       Len(d) > 0 /\ \E k \in 0..(Len(w) - Len(d)) : SamePts(d, SubSeq(w, k + 1, k + Len(d)), c.s)
    [] c.t = "bpart" -> LET w == Pairs(c.x, c.y) k2 == MaxAbs([i \in 1..Len(w) |-> w[i][2]]) IN
                       Len(d) > 0 /\ \E k \in 0..(Len(w) - Len(d)) : \A i \in 1..Len(d) :
                          RelT(d[i][1], w[i + k][1], Ten(-9)) /\ RLe(RAbs(RSub(RSub(d[i][2], w[i + k][2]), RSub(d[1][2], w[1 + k][2]))), RMul(Ten(-9), k2))
    [] c.t = "vert" -> Len(s.x) >= 2 /\ \A i \in 1..Len(s.x) : RLe(RAbs(RSub(s.x[i], c.x[1])), RMul(Ten(-9), RAbs(c.x[1])))
Shown(s) == \E i \in 1..Len(s.x) : IsFin(s.x[i]) /\ IsFin(s.y[i])
Visible(c) == CASE c.t \in {"is", "is2", "part"} -> Len(Pairs(c.x, c.y)) > 0
                [] c.t = "root" -> Len(SelectSeq(Pairs(c.x, c.y), NonNeg2)) > 0
                [] c.t \in {"base", "bpart"} -> Len(Pairs(c.x, c.y)) > 0
                [] c.t = "angle" -> \E i \in 1..Len(c.y) : CFin(c.y[i])
                [] c.t = "ray" -> Len(SelectSeq(c.x, IsFin)) > 0 /\ IsFin(c.y[1])
                [] OTHER -> TRUE

(*************************** panels ****************************************)
\* expected panel: names in the title, curves, error bars <<x, y, e, dir>>
NameOK(c, s, p) == SetOf(s.n) \subseteq SetOf(c.n)
Labelled(c, p) == SetOf(c.n) = {} \/ \E i \in 1..Len(p.series) : Shown(p.series[i]) /\ Fits(c, p.series[i]) /\ SetOf(c.n) \subseteq (SetOf(p.series[i].n) \cup SetOf(p.n))
BarIs(b, g) ==      \* drawn bars b, expected g
  LET ok(i) == IsFin(g.x[i]) /\ IsFin(g.y[i]) /\ IsFin(g.e[i])
      J == SelectSeq([i \in 1..Len(g.x) |-> i], ok)
      D == SelectSeq(b, LAMBDA q : IsFin(q[1]) /\ IsFin(q[2]) /\ IsFin(q[3]) /\ IsFin(q[4]))
      near(p, q, s) == RLe(RAbs(RSub(p, q)), RMul(Ten(-9), s))
  IN /\ Len(D) = Len(J)
     /\ \A k \in 1..Len(J) :
          LET i == J[k] x == g.x[i] y == g.y[i] e == g.e[i] q == D[k] IN
          IF g.d = "y" THEN near(q[1], x, RAbs(x)) /\ near(q[3], x, RAbs(x)) /\ near(q[2], RSub(y, e), RAdd(RAbs(y), e)) /\ near(q[4], RAdd(y, e), RAdd(RAbs(y), e))
          ELSE near(q[2], y, RAbs(y)) /\ near(q[4], y, RAbs(y)) /\ near(q[1], RSub(x, e), RAdd(RAbs(x), e)) /\ near(q[3], RAdd(x, e), RAdd(RAbs(x), e))
PanelFails(p, g) ==
  LET sh == SelectSeq(p.series, Shown) IN
     Fail("every curve is drawn", \A i \in 1..Len(g.c) : Visible(g.c[i]) => \E j \in 1..Len(sh) : Fits(g.c[i], sh[j]))
  \cup Fail("nothing else is drawn", \A j \in 1..Len(sh) : \E i \in 1..Len(g.c) : Fits(g.c[i], sh[j]) /\ NameOK(g.c[i], sh[j], p))
  \cup Fail("curves carry their names", \A i \in 1..Len(g.c) : Visible(g.c[i]) => Labelled(g.c[i], p))
  \cup Fail("error bars", /\ \A i \in 1..Len(g.b) : \E j \in 1..Len(p.bars) : BarIs(p.bars[j], g.b[i])
                          /\ \A j \in 1..Len(p.bars) : \E i \in 1..Len(g.b) : BarIs(p.bars[j], g.b[i]))
Used(p) == (\E i \in 1..Len(p.series) : Shown(p.series[i])) \/ Len(p.bars) > 0
FigFails(panels, want) ==
  LET G == SelectSeq(panels, Used) IN
  IF Len(G) # Len(want) THEN {"one panel per documented plot"}
  ELSE UNION {LET R == {PanelFails(G[j], want[i]) : j \in 1..Len(G)} IN IF {} \in R THEN {} ELSE PanelFails(G[i], want[i]) : i \in 1..Len(want)}
Panel(names, curves, bars) == [n |-> names, c |-> curves, b |-> bars]

(*************************** what is plotted *******************************)
Scale(v, m) == TLCEval([i \in 1..Len(v) |-> IF IsFin(v[i]) THEN RMul(v[i], m) ELSE v[i]])
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Drop1(v) == SubSeq(v, 2, Len(v))

\* IV, resistance and power curves of the chosen temperatures and channels
Sel(e) == Flat([a \in 1..Len(e.temps) |-> [b \in 1..Len(e.chans) |-> <<e.temps[a], e.chans[b]>>]])
IvPanel(e, which) ==
  LET S == Sel(e)
      vx(q) == Scale(e.vb[q[1]][q[2]], Ten(6))
      m == CASE which = "iv" -> Ten(6) [] which = "rv" -> Ten(3) [] OTHER -> Ten(12)
      val == CASE which = "iv" -> e.ites [] which = "rv" -> e.r0 [] OTHER -> e.ptes
      err == CASE which = "iv" -> e.itese [] which = "rv" -> e.r0e [] OTHER -> e.ptese
      vy(q) == Scale(val[q[1]][q[2]], m)
      ve(q) == Scale(err[q[1]][q[2]], m)
      bx(q) == Scale(e.vbe[q[1]][q[2]], Ten(6))
  IN Panel(<<>>, [i \in 1..Len(S) |-> C(vx(S[i]), vy(S[i]), <<e.chnames[S[i][2]]>> \o IF e.nt > 1 THEN <<e.tnames[S[i][1]]>> ELSE <<>>)]
                 \o (IF which = "iv" /\ e.showfit THEN [i \in 1..Len(S) |-> Ray(vx(S[i]), RDiv(R1, e.rfit[S[i][1]][S[i][2]]))] ELSE <<>>),
           [i \in 1..Len(S) |-> [x |-> vx(S[i]), y |-> vy(S[i]), e |-> ve(S[i]), d |-> "y"]]
           \o (IF e.ib THEN [i \in 1..Len(S) |-> [x |-> vx(S[i]), y |-> vy(S[i]), e |-> bx(S[i]), d |-> "x"]] ELSE <<>>))
IvWant(e) == CASE e.what = "all" -> <<IvPanel(e, "iv"), IvPanel(e, "rv"), IvPanel(e, "pv")>>
               [] OTHER -> <<IvPanel(e, e.what)>>

\* noise spectra: everything but the zero frequency
N(e, v, names) == Cr(Drop1(e.f), Drop1(v), names)
\* Savitzky-Golay smoothing of third order with half-width m, the ends repeated
Smooth(v, m) ==
  LET n == Len(v)
      at(i) == v[IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i]
      w(k) == Frac(3 * (3 * m * m + 3 * m - 1 - 5 * k * k), (2 * m - 1) * (2 * m + 1) * (2 * m + 3))
  IN TLCEval([i \in 1..n |-> RSum([k \in 1..(2 * m + 1) |-> RMul(w(k - m - 1), at(i + k - m - 1))])])
Pairings(n) == Flat([i \in 1..n |-> [j \in 1..(i - 1) |-> <<i, j>>]])
NoiseWant(e) ==
  LET K == Len(e.names) nm(i) == <<e.names[i]>>
      split(f(_)) == [i \in 1..K |-> Panel(nm(i), f(i), <<>>)]
  IN
  CASE e.what = "psd" -> IF e.overlay THEN <<Panel(<<>>, [i \in 1..K |-> N(e, e.psd[i], nm(i))], <<>>)>>
                         ELSE [i \in 1..K |-> Panel(nm(i), <<N(e, e.psd[i], nm(i))>>, <<>>)]
    [] e.what = "reim" -> LET g(i) == <<N(e, e.re[i], nm(i) \o <<"real">>), N(e, e.im[i], nm(i) \o <<"imag">>)>>
                          IN [i \in 1..K |-> Panel(nm(i), g(i), <<>>)]
    [] e.what = "corr" -> LET S == Pairings(K) IN
         <<Panel(<<>>, [k \in 1..Len(S) |-> LET v == Drop1(e.corr[S[k][1]][S[k][2]])
                                            IN Cs(Drop1(e.f), IF e.smooth THEN Smooth(v, (e.win - 1) \div 2) ELSE v, <<e.names[S[k][1]], e.names[S[k][2]]>>, R1)], <<>>)>>
    [] e.what = "csd" -> [k \in 1..Len(e.pairs) |-> LET i == e.pairs[k][1] j == e.pairs[k][2] IN
                            Panel(<<>>, <<C(Drop1(e.f), Drop1((IF e.real THEN e.rcsd ELSE e.icsd)[i][j]), <<e.names[i], e.names[j]>>)>>, <<>>)]
    [] e.what = "decor" -> IF e.overlay THEN <<Panel(<<>>, [i \in 1..K |-> N(e, e.unc[i], nm(i))], <<>>)>>
         ELSE LET g(i) == (IF e.data THEN <<N(e, e.rcsd[i][i], nm(i) \o <<"Data">>)>> ELSE <<>>) \o (IF e.uncorr THEN <<N(e, e.unc[i], nm(i) \o <<"Uncorrelated Noise">>)>> ELSE <<>>)
                          \o (IF e.correl THEN <<N(e, e.cor[i], nm(i) \o <<"Correlated Noise">>)>> ELSE <<>>)
                          \o (IF e.sum THEN <<N(e, [k \in 1..Len(e.f) |-> RAdd(e.unc[i][k], e.cor[i][k])], nm(i) \o <<"Total Noise">>)>> ELSE <<>>)
              IN SelectSeq([i \in 1..K |-> Panel(nm(i), g(i), <<>>)], LAMBDA p : Len(p.c) > 0)
\* several noise objects, one panel per channel known to any of them
CompareWant(e) ==
  [k \in 1..Len(e.chans) |->
     LET J == SelectSeq([o \in 1..Len(e.objs) |-> o], LAMBDA o : \E i \in 1..Len(e.objs[o].names) : e.objs[o].names[i] = e.chans[k])
         K2 == IF e.decor THEN SelectSeq(J, LAMBDA o : e.objs[o].hasunc) ELSE J
         ix(o) == CHOOSE i \in 1..Len(e.objs[o].names) : e.objs[o].names[i] = e.chans[k]
     IN Panel(<<e.chans[k]>>, [q \in 1..Len(K2) |-> LET o == e.objs[K2[q]] IN
           Cr(Drop1(o.f), Drop1(IF e.decor THEN o.unc[ix(K2[q])] ELSE o.psd[ix(K2[q])]), <<e.chans[k], o.name>>)], <<>>)]
\* measured noise with the components of a simulation (each curve: values and its label)
SimWant(e) == <<Panel(<<>>, [i \in 1..Len(e.curves) |-> Cr(Drop1(e.f), Drop1(e.curves[i].v), <<e.curves[i].n>>)], <<>>)>>
\* time-domain dI/dV: microseconds and microamperes
DidvTime(e) ==
  LET mean(k) == Scale([i \in 1..Len(e.tmean) |-> RSub(e.tmean[i], e.offset)], k)
      sc == MaxAbs(mean(Ten(6)))
      fit(q) == Cs(Scale([i \in 1..Len(e.time) |-> RAdd(e.time[i], q.dt)], Ten(6)), Scale(q.v, Ten(6)), <<q.n>>, MaxAbs(Scale(q.v, Ten(6))))
  IN <<Panel(<<>>, <<Cs(Scale(e.time, Ten(6)), mean(Ten(6)), <<"Mean">>, sc)>>
         \o (IF e.what = "flip" THEN <<Cs(Scale([i \in 1..Len(e.time) |-> RSub(e.time[i], RDiv(R1, RMulI(2, e.sg)))], Ten(6)), mean(RNeg(Ten(6))), <<"Flipped Data">>, sc)>> ELSE <<>>)
         \o [i \in 1..Len(e.fits) |-> fit(e.fits[i])], <<>>)>>

\* frequency-domain dI/dV, the time offset of the best fit taken out
Keep(v, I) == TLCEval([k \in 1..Len(I) |-> v[I[k]]])
DidvFreq(e) ==
  LET n == Len(e.f) I == [i \in 1..n |-> i]
      pos == SelectSeq(I, LAMBDA i : RGt(e.f[i], R0))
      sel == SelectSeq(pos, LAMBDA i : RGt(CAbs2(e.mean[i]), RMulI(4, CAbs2(e.std[i]))))
      best == IF Len(e.costs) = 0 THEN R0 ELSE e.costs[CHOOSE i \in 1..Len(e.costs) : \A j \in 1..Len(e.costs) : RLe(e.costs[i][1], e.costs[j][1])][2]
      ph == TLCEval([i \in 1..n |-> Cis(Tr(RMulI(2, RMul(PiR, RMul(best, e.f[i])))))])
      turned(v, J) == TLCEval([k \in 1..Len(J) |-> LET z == CMul(v[J[k]], ph[J[k]]) IN <<RSig(z[1], 8), RSig(z[2], 8)>>])
      plus == TLCEval([i \in 1..n |-> CAdd(e.mean[i], e.std[i])])
      minus == TLCEval([i \in 1..n |-> CSub(e.mean[i], e.std[i])])
      big(v) == MaxAbs([i \in 1..Len(v) |-> RAdd(RAbs(v[i][1]), RAbs(v[i][2]))])
      cur(x, v, which, names) ==
        CASE which = "re" -> Cs(x, [i \in 1..Len(v) |-> v[i][1]], names, big(v))
          [] which = "im" -> Cs(x, [i \in 1..Len(v) |-> v[i][2]], names, big(v))
          [] which = "abs" -> Cr(x, [i \in 1..Len(v) |-> CAbs2(v[i])], names)
          [] OTHER -> [t |-> "angle", x |-> x, y |-> v, n |-> names, s |-> R0]
      panel(which) == Panel(<<>>,
        <<cur(Keep(e.f, sel), turned(e.mean, sel), which, <<"Mean">>), cur(Keep(e.f, sel), turned(plus, sel), which, <<"Bounds">>), cur(Keep(e.f, sel), turned(minus, sel), which, <<>>)>>
        \o [i \in 1..Len(e.fits) |-> cur(Keep(e.f, pos), Keep(e.fits[i].z, pos), which, <<e.fits[i].n>>)], <<>>)
      inv(v) == TLCEval([i \in 1..Len(v) |-> LET z == CInv(v[i]) IN <<RSig(z[1], 8), RSig(z[2], 8)>>])
      xy(v, names) == [t |-> "is2", x |-> [i \in 1..Len(v) |-> v[i][1]], y |-> [i \in 1..Len(v) |-> v[i][2]], n |-> names, s |-> big(v)]
  IN CASE e.what = "reim" -> <<panel("re"), panel("im")>>
       [] e.what = "absphase" -> <<panel("abs"), panel("angle")>>
       [] OTHER -> <<Panel(<<>>, <<xy(inv(turned(e.mean, sel)), <<"Mean">>)>> \o [i \in 1..Len(e.fits) |-> xy(inv(Keep(e.fits[i].z, pos)), <<e.fits[i].n>>)], <<>>)>>

\* fit of pulse shapes: spectrum, close-up and whole trace
NonlinWant(e) ==
  LET I == SelectSeq([i \in 1..Len(e.f) |-> i], LAMBDA i : RGt(e.f[i], R0))
      mag(v) == [k \in 1..Len(I) |-> CAbs2(v[I[k]])]
      x == Keep(e.f, I)
      T == Scale(e.time, Ten(3))
      as(c, t) == [c EXCEPT !.t = t]
      fit == Cs(T, e.model, <<>>, MaxAbs(e.model))
  IN <<Panel(<<>>, <<Cr(x, mag(e.data), <<"Pulse">>), Cr(x, mag(e.modelf), <<"Fit">>), C(x, Keep(e.error, I), <<"PSD">>)>>, <<>>),
       Panel(<<>>, <<[as(Cb(T, e.pulse), "bpart") EXCEPT !.n = <<"Pulse">>], [as(fit, "part") EXCEPT !.n = <<"Time Domain">>]>>, <<>>),
       Panel(<<>>, <<[Cb(T, e.pulse) EXCEPT !.n = <<"Pulse">>], [fit EXCEPT !.n = <<"Time Domain">>]>>, <<>>)>>

\* multi-template fit: data, total, backgrounds on top of offset and slope, signal, start of the templates
Roll(v, k) == LET n == Len(v) IN [i \in 1..n |-> v[((i - 1 - k + 2 * n) % n) + 1]]
NsmbWant(e) ==
  LET n == Len(e.pulse) m == Len(e.amp)
      bins == [i \in 1..n |-> Rat(i - 1)]
      part(j) == LET t == IF j = 1 THEN Roll(e.temps[1], e.shift) ELSE e.temps[j] IN [i \in 1..n |-> RMul(e.amp[j], t[i])]
      pt == TLCEval([j \in 1..m |-> part(j)])
      total == [i \in 1..n |-> RSum([j \in 1..m |-> pt[j][i]])]
      onbase(j) == [i \in 1..n |-> RAdd(pt[j][i], RAdd(pt[m - 1][i], pt[m][i]))]
      s == RAdd(RSum([j \in 1..m |-> MaxAbs(pt[j])]), Ten(-300))
      cur(v, names) == Cs(bins, v, names, s)
  IN <<Panel(<<>>, <<cur(e.pulse, <<"Data">>)>> \o (IF e.lp THEN <<cur(e.filt, <<"Data (LP filtered)">>)>> ELSE <<>>)
        \o <<cur(total, <<"Total Fit">>)>>
        \o [j \in 1..(m - 3) |-> cur(onbase(j + 1), IF j = 1 THEN <<"Background Fit">> ELSE <<>>)]
        \o (IF RIsZero(e.amp[1]) THEN <<>> ELSE <<cur(onbase(1), <<"Signal Fit">>)>>)
        \o [j \in 1..Len(e.starts) |-> [V(e.starts[j]) EXCEPT !.n = IF j = 1 THEN <<"Bckg. Start Times">> ELSE <<>>]], <<>>)>>

\* the stretch of time that is shown: the whole trace, one period from its start, or the given share of a period around the middle
\* of the first one (where the drive turns round), moved by the time offset of the best fit
Best(e) == IF Len(e.costs) = 0 THEN R0 ELSE e.costs[CHOOSE i \in 1..Len(e.costs) : \A j \in 1..Len(e.costs) : RLe(e.costs[i][1], e.costs[j][1])][2]
WindowOK(e) ==
  LET t0 == e.time[1] T == RDiv(R1, e.sg) us(x) == RMul(x, Ten(6))
      near(a, b) == IsFin(a) /\ RLe(RAbs(RSub(a, us(b))), RMul(Ten(-9), RAdd(us(T), RAbs(us(b)))))
      mid == RAdd(RAdd(Best(e), t0), RHalf(T))
      h == RHalf(RMul(e.zoom, T))
      is(l, lo, hi) == near(l[1], lo) /\ near(l[2], hi)
      ok(l) == CASE e.what = "full" -> is(l, t0, e.time[Len(e.time)])
                 [] e.what = "single" -> is(l, t0, RAdd(t0, T))
                 [] e.what = "zoomed" -> is(l, RSub(mid, h), RAdd(mid, h))
                 [] OTHER -> TRUE
  IN \A j \in 1..Len(e.panels_drawn) : ok(e.panels_drawn[j].lim)
\* the chi-square written beside the total of a multi-template fit, to the digit it is shown with
ShownOK(e) ==
  LET n == Len(e.pulse) m == Len(e.amp)
      at(j, i) == RMul(e.amp[j], IF j = 1 THEN Roll(e.temps[1], e.shift)[i] ELSE e.temps[j][i])
      r == [i \in 1..n |-> RSub(e.pulse[i], RSum([j \in 1..m |-> at(j, i)]))]
      chi == RDiv(RSum([i \in 1..n |-> RSq(r[i])]), RMulI(n, e.w))
  IN \A j \in 1..Len(e.panels_drawn) : \A k \in 1..Len(e.panels_drawn[j].chi2) :
       RLe(RAbs(RSub(e.panels_drawn[j].chi2[k], chi)), RAdd(Frac(6, 100), RMul(Ten(-6), chi)))
AskedOK(e) ==
  LET near(a, b) == IsFin(a) /\ RLe(RAbs(RSub(a, b)), RMul(Ten(-9), RAbs(b)))
      is(l, w) == Len(w) = 2 => near(l[1], w[1]) /\ near(l[2], w[2])
  IN \A j \in 1..Len(e.panels_drawn) : is(e.panels_drawn[j].lim, e.askx) /\ is(e.panels_drawn[j].limy, e.asky)
Clauses(e, want) ==
  IF e.exc # "" THEN {"unexpected exception"}
  ELSE FigFails(e.panels_drawn, want)
       \cup Fail("the time window", e.op = "time" => WindowOK(e))
       \cup Fail("the chi-square shown", e.op = "nsmb" => ShownOK(e))
       \cup Fail("the limits asked for", AskedOK(e))
       \cup Fail("the plotted object and arrays keep their values", e.kept)
       \cup Fail("figures of other calls keep their contents", e.others)
       \cup Fail("files are written exactly when asked for", e.files = IF e.save THEN e.nfig ELSE 0)
       \cup Fail("files carry the requested name", e.named)
=============================================================================
