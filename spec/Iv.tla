--------------------------------- MODULE Iv ---------------------------------
(***************************************************************************)
(* Current-voltage curves of a TES (C22 class IV, C23 class IBIS).         *)
(* Every analysis is weighted straight-line fits to the normal (and the    *)
(* superconducting) points, the circuit equations at each point, and       *)
(* first-order propagation of independent errors.                          *)
(***************************************************************************)
EXTENDS Num

Fail(name, ok) == IF ok THEN {} ELSE {name}
VMulW(w, x) == TLCEval([i \in 1..Len(x) |-> RMul(w[i], x[i])])
RECURSIVE FinOnly(_)
FinOnly(s) == IF s = <<>> THEN <<>> ELSE (IF IsFin(s[1]) THEN <<s[1]>> ELSE <<>>) \o FinOnly(Tail(s))
MaxFin(s) == MaxAbs(FinOnly(s))
------------------------------------------------- (* straight-line fit *)
(* weighted least squares y = b + m x over the 0-based indices ix *)
Wls(x, y, s, ix) ==
  LET k == Len(ix)
      w == TLCEval([i \in 1..k |-> RInv(RSq(s[ix[i] + 1]))])
      xx == TLCEval([i \in 1..k |-> x[ix[i] + 1]])
      yy == TLCEval([i \in 1..k |-> y[ix[i] + 1]])
      S == RSum(w)
      Sx == RDot(w, xx)
      Sy == RDot(w, yy)
      Sxx == RDot(VMulW(w, xx), xx)
      Sxy == RDot(VMulW(w, xx), yy)
      D == RSub(RMul(S, Sxx), RSq(Sx))
      m == RDiv(RSub(RMul(S, Sxy), RMul(Sx, Sy)), D)
      b == RDiv(RSub(RMul(Sxx, Sy), RMul(Sx, Sxy)), D)
      chi == RSum(TLCEval([i \in 1..k |-> RMul(w[i], RSq(RSub(yy[i], RAdd(b, RMul(m, xx[i])))))]))
  IN TLCEval([m |-> RSig(m, 12), b |-> RSig(b, 12), vm |-> RSig(RDiv(S, D), 12), vb |-> RSig(RDiv(Sxx, D), 12), chi |-> chi,
              ymax |-> MaxAbs(yy), xmax |-> MaxAbs(xx)])
FirstN(k) == [i \in 1..k |-> i - 1]
(* the normal branch: the longest initial run of points (at least two) of   *)
(* which every initial part is a straight line, reduced chi-square <= 10    *)
Dof(k) == Rat(k - 2)
Lin(x, y, s, k, f) == RLe(Wls(x, y, s, FirstN(k)).chi, RMul(RMul(Rat(10), f), Dof(k)))
Usable(x) == Cardinality({i \in 1..Len(x) : \A j \in 1..i : IsFin(x[j])})
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(x, y, s, k, f) == IF k < Usable(x) /\ Lin(x, y, s, k + 1, f) THEN RunFrom(x, y, s, k + 1, f) ELSE k
(* set of acceptable run lengths: comparisons within rounding may go either way *)
Runs(x, y, s) == {RunFrom(x, y, s, 2, f) : f \in {RSub(R1, Ten(-5)), RAdd(R1, Ten(-5))}}

---------------------------------------------- (* forms of a resistance *)
(* form 0 scalar, 1 one per channel, 2 per temperature and channel, 3 per point *)
RAt(form, v, t, ch, i) == CASE form = 0 -> v [] form = 1 -> v[ch] [] form = 2 -> v[t][ch] [] OTHER -> v[t][ch][i]

----------------------------------------------------------- (* checks *)
Sq2(a, b) == RAdd(RSq(a), RSq(b))
(* recorded standard error against an exact variance *)
ErrIs(rec, var) == IsFin(rec) /\ RGe(rec, R0) /\ RLe(RAbs(RSub(RSq(rec), var)), RMul(Ten(-4), var))
(* a recorded fit parameter: a least-squares routine stops a small fraction of an error away *)
ParIs(rec, v, var, scale) == IsFin(rec) /\ RLe(RSq(RSub(rec, v)), RAdd(RMul(Ten(-5), var), RSq(RMul(Ten(-6), RAdd(RAbs(v), scale)))))
Tight(rec, v, scale) == ScNear(rec, v, 8, scale)
IsNan(x) == Len(x) = 1
Same3(o, nt, nc, ni) == Len(o) = nt /\ \A t \in 1..nt : Len(o[t]) = nc /\ \A ch \in 1..nc : Len(o[t][ch]) = ni
Same2(o, nt, nc) == Len(o) = nt /\ \A t \in 1..nt : Len(o[t]) = nc
(* every recorded quantity has one value per temperature, channel (and point) *)
Shapes(c, o, two, three) == /\ \A f \in two : Same2(o[f], c.nt, c.nc)
                            /\ \A f \in three : Same3(o[f], c.nt, c.nc, c.ni)
AllFin2(o, two, t, ch) == \A f \in two : IsFin(o[f][t][ch])

BranchFails(e) == Fail("the normal branch is the longest initial straight run",
  e.exc = "" /\ \E k \in Runs(e.x, e.y, e.s) : e.out = FirstN(k))
(* c: nt, nc, ni, di, die, x, xe, rform, r, re, badnew, names *)
NewFails(e) ==
  Fail("data with a wrong number of names, dimensions or load resistances is refused with ValueError", e.bad = (e.exc = "ValueError"))
  \cup Fail("a valid data set is accepted", e.bad \/ e.exc = "")

(***************************************************************************)
(* IV: x is the bias voltage, r the load resistance.                       *)
(***************************************************************************)
IvTwo == {"ioff", "ioff_err", "rfit", "rfit_err", "rnorm", "rnorm_err"}
IvThree == {"ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err"}
IvPoint(c, o, t, ch, i) ==
  LET d == c.di[t][ch][i]  v == c.x[t][ch][i]
      rl == RAt(c.rform, c.r, t, ch, i)  rle == RAt(c.rform, c.re, t, ch, i)
      it == RSub(d, o.ioff[t][ch])
      ve == c.xe[t][ch][i]
      ite2 == Sq2(c.die[t][ch][i], o.ioff_err[t][ch])
      vi == RDiv(v, it)
      r0e2 == RAdd(RAdd(RSq(RDiv(ve, it)), RMul(RSq(RDiv(vi, it)), ite2)), RSq(rle))
      pe2 == RAdd(RAdd(RMul(RSq(RSub(v, RMulI(2, RMul(it, rl)))), ite2), RSq(RMul(it, ve))), RSq(RMul(RSq(it), rle)))
  IN IF IsNan(d) \/ IsNan(v) THEN Fail("padded points have no resistance and no power", IsNan(o.r0[t][ch][i]) /\ IsNan(o.ptes[t][ch][i]))
     ELSE Fail("TES current is the measured current less the offset", Tight(o.ites[t][ch][i], it, RAdd(RAbs(d), RAbs(o.ioff[t][ch])))
                 /\ ErrIs(o.ites_err[t][ch][i], ite2))
          \cup IF RLe(RAbs(it), RMul(Ten(-6), RAdd(RAbs(d), RAbs(o.ioff[t][ch])))) THEN {} ELSE
            Fail("TES resistance is the bias voltage over the current less the load resistance", Tight(o.r0[t][ch][i], RSub(vi, rl), RAdd(RAbs(vi), RAbs(rl))))
            \cup Fail("error of the TES resistance by first-order propagation", ErrIs(o.r0_err[t][ch][i], r0e2))
            \cup Fail("TES power is the resistance times the squared current", Tight(o.ptes[t][ch][i], RMul(RSq(it), RSub(vi, rl)), RAdd(RAbs(RMul(it, v)), RAbs(RMul(RSq(it), rl)))))
            \cup Fail("error of the TES power by first-order propagation", ErrIs(o.ptes_err[t][ch][i], pe2))
IvFit(c, o, t, ch, ix) ==
  LET w == Wls(c.x[t][ch], c.di[t][ch], c.die[t][ch], ix)
      im == RInv(w.m)
      vim == RMul(w.vm, RSq(RSq(im)))
  IN Fail("current offset is the intercept of the line through the normal points", ParIs(o.ioff[t][ch], w.b, w.vb, w.ymax) /\ ErrIs(o.ioff_err[t][ch], w.vb))
     \cup Fail("total resistance is the inverse slope of the normal line", ParIs(o.rfit[t][ch], im, vim, R0))
     \cup Fail("error of the total resistance by first-order propagation", ErrIs(o.rfit_err[t][ch], vim))
IvFails(c, e) ==
  IF e.exc # "" THEN {"the analysis raises an exception"}
  ELSE IF ~Shapes(c, e.o, IvTwo, IvThree) THEN {"one result per temperature, channel and bias point"}
  ELSE UNION {UNION {LET o == e.o IN
    IF ~AllFin2(o, IvTwo, t, ch) THEN {"fit results are finite"}
    ELSE (LET alts == IF e.auto THEN {FirstN(k) : k \in Runs(c.x[t][ch], c.di[t][ch], c.die[t][ch])} ELSE {e.norm}
              res == {IvFit(c, o, t, ch, ix) : ix \in alts}
          IN IF {} \in res THEN {} ELSE CHOOSE r \in res : TRUE)
         \cup (LET rl == RAt(c.rform, c.r, t, ch, 1) IN
           Fail("normal resistance is the total resistance less the load resistance",
             /\ Tight(o.rnorm[t][ch], RSub(o.rfit[t][ch], rl), RAdd(RAbs(o.rfit[t][ch]), RAbs(rl)))
             /\ ErrIs(o.rnorm_err[t][ch], Sq2(o.rfit_err[t][ch], RAt(c.rform, c.re, t, ch, 1)))))
         \cup (IF c.truth = <<>> THEN {} ELSE Fail("the offset and normal resistance of exact data are recovered",
              ScNear(o.ioff[t][ch], c.truth[t][ch][1], 4, MaxFin(c.di[t][ch])) /\ ScNear(o.rnorm[t][ch], c.truth[t][ch][2], 4, o.rfit[t][ch])))
         \cup UNION {IvPoint(c, o, t, ch, i) : i \in 1..c.ni}
    : ch \in 1..c.nc} : t \in 1..c.nt}

(***************************************************************************)
(* IBIS: x is the bias current, c.rsh the shunt, r the parasitic           *)
(* resistance used when the superconducting branch is not fitted.          *)
(***************************************************************************)
IbTwo == {"ioff", "ioff_err", "ibias_off", "ibias_off_err", "rfit", "rfit_err", "rp", "rp_err", "rnorm", "rnorm_err"}
IbThree == {"ites", "ites_err", "ibias_true", "ibias_true_err", "vb", "vb_err", "r0", "r0_err", "ptes", "ptes_err",
            "slope_n", "int_n", "slope_sc", "int_sc"}
IbPoint(c, e, o, t, ch, i) ==
  LET d == c.di[t][ch][i]  b == c.x[t][ch][i]  de == c.die[t][ch][i]  be == c.xe[t][ch][i]
      oi == o.ioff[t][ch]  ob == o.ibias_off[t][ch]
      it == RSub(d, oi)  bt == RSub(b, ob)
      rp == IF e.fitsc THEN o.rp[t][ch] ELSE RAt(c.rform, c.r, t, ch, i)
      rpe == IF e.fitsc THEN o.rp_err[t][ch] ELSE RAt(c.rform, c.re, t, ch, i)
      be2 == Sq2(be, o.ibias_off_err[t][ch])
      de2 == Sq2(de, o.ioff_err[t][ch])
      q == RDiv(bt, it)
      rl == RAdd(c.rsh, rp)
      r0 == RSub(RMul(q, c.rsh), rl)
      r0e2 == RAdd(RAdd(RMul(RSq(RDiv(c.rsh, it)), be2), RMul(RSq(RDiv(RMul(q, c.rsh), it)), de2)),
                   RAdd(RMul(RSq(RSub(q, R1)), RSq(c.rshe)), RSq(rpe)))
      p == RSub(RMul(RMul(bt, c.rsh), it), RMul(rl, RSq(it)))
      pe2 == RAdd(RAdd(RMul(RSq(RMul(c.rsh, it)), be2), RMul(RSq(RSub(RMul(bt, c.rsh), RMulI(2, RMul(rl, it)))), de2)),
                  RAdd(RMul(RSq(RSub(RMul(bt, it), RSq(it))), RSq(c.rshe)), RMul(RSq(RSq(it)), RSq(rpe))))
      ve2 == RAdd(RSq(RMul(bt, c.rshe)), RMul(RSq(c.rsh), be2))
  IN IF IsNan(d) \/ IsNan(b) THEN Fail("padded points have no resistance and no power", IsNan(o.r0[t][ch][i]) /\ IsNan(o.ptes[t][ch][i]))
     ELSE Fail("TES current is the measured current less the offset", Tight(o.ites[t][ch][i], it, RAdd(RAbs(d), RAbs(oi))) /\ ErrIs(o.ites_err[t][ch][i], de2))
          \cup Fail("bias current is the applied current less the offset", Tight(o.ibias_true[t][ch][i], bt, RAdd(RAbs(b), RAbs(ob))) /\ ErrIs(o.ibias_true_err[t][ch][i], be2))
          \cup Fail("bias voltage is the bias current times the shunt", Tight(o.vb[t][ch][i], RMul(bt, c.rsh), RMul(c.rsh, RAdd(RAbs(b), RAbs(ob)))) /\ ErrIs(o.vb_err[t][ch][i], ve2))
          \cup Fail("TES power follows the circuit equation", Tight(o.ptes[t][ch][i], p, RAdd(RAbs(RMul(RMul(bt, c.rsh), it)), RMul(RAbs(rl), RSq(it)))))
          \cup Fail("error of the TES power by first-order propagation", IF RIsZero(pe2) THEN RIsZero(o.ptes_err[t][ch][i]) ELSE ErrIs(o.ptes_err[t][ch][i], pe2))
          \cup IF RLe(RAbs(it), RMul(Ten(-6), RAdd(RAbs(d), RAbs(oi)))) THEN {} ELSE
            Fail("TES resistance follows the circuit equation", Tight(o.r0[t][ch][i], r0, RAdd(RAbs(RMul(q, c.rsh)), RAbs(rl))))
            \cup Fail("error of the TES resistance by first-order propagation", ErrIs(o.r0_err[t][ch][i], r0e2))
IbLine(o, w, sl, in, t, ch) == ParIs(o[sl][t][ch][1], w.m, w.vm, R0) /\ ParIs(o[in][t][ch][1], w.b, w.vb, w.ymax)
IbFit(c, e, o, t, ch) ==
  LET w == Wls(c.x[t][ch], c.di[t][ch], c.die[t][ch], e.norm)
      z == IF e.fitsc THEN Wls(c.x[t][ch], c.di[t][ch], c.die[t][ch], e.sc) ELSE w
      im == RInv(w.m)  izm == RInv(z.m)
      rf2 == RAdd(RMul(RSq(c.rsh), RMul(w.vm, RSq(RSq(im)))), RSq(RMul(im, c.rshe)))
      rp2 == RAdd(RMul(RSq(c.rsh), RMul(z.vm, RSq(RSq(izm)))), RSq(RMul(RSub(izm, R1), c.rshe)))
      sn == o.slope_n[t][ch][1] bn == o.int_n[t][ch][1] ss == o.slope_sc[t][ch][1] bs == o.int_sc[t][ch][1]
      D == RSub(z.m, w.m)   B == RSub(w.b, z.b)
      xo == RDiv(RSub(bn, bs), RSub(ss, sn))
      yo == RAdd(RMul(sn, xo), bn)
      \* first-order errors of the intersection point
      xv == RAdd(RDiv(RAdd(w.vb, z.vb), RSq(D)), RMul(RSq(RDiv(B, RSq(D))), RAdd(w.vm, z.vm)))
      dn == RAdd(RDiv(B, D), RMul(w.m, RDiv(B, RSq(D))))
      yv == RAdd(RAdd(RMul(RSq(RAdd(RDiv(w.m, D), R1)), w.vb), RMul(RSq(RDiv(w.m, D)), z.vb)),
                 RAdd(RMul(RSq(dn), w.vm), RMul(RSq(RMul(w.m, RDiv(B, RSq(D)))), z.vm)))
      xscale == RAdd(RAbs(xo), RDiv(RAdd(RAbs(bn), RAbs(bs)), RAbs(RSub(ss, sn))))
  IN Fail("slope and intercept of the weighted line through the normal points", IbLine(o, w, "slope_n", "int_n", t, ch))
     \cup Fail("slope and intercept of the weighted line through the superconducting points",
            IF e.fitsc THEN IbLine(o, z, "slope_sc", "int_sc", t, ch) ELSE RIsZero(ss) /\ RIsZero(bs))
     \cup Fail("total resistance is the shunt over the normal slope", Tight(o.rfit[t][ch], RDiv(c.rsh, sn), RDiv(c.rsh, RAbs(sn))))
     \cup Fail("error of the total resistance by first-order propagation", ErrIs(o.rfit_err[t][ch], rf2))
     \cup Fail("parasitic resistance", IF e.fitsc THEN Tight(o.rp[t][ch], RSub(RDiv(c.rsh, ss), c.rsh), RAdd(c.rsh, RAbs(RDiv(c.rsh, ss))))
                                       ELSE RelNear(o.rp[t][ch], RAt(c.rform, c.r, t, ch, 1), 9))
     \cup Fail("error of the parasitic resistance by first-order propagation",
            IF e.fitsc THEN ErrIs(o.rp_err[t][ch], rp2) ELSE RelNear(o.rp_err[t][ch], RAt(c.rform, c.re, t, ch, 1), 9))
     \cup Fail("current offset", IF e.yoff # <<>> THEN RelNear(o.ioff[t][ch], e.yoff[1], 9)
                                 ELSE IF e.fitsc THEN Tight(o.ioff[t][ch], yo, RAdd(RAbs(bn), RMul(RAbs(sn), xscale))) ELSE RelNear(o.ioff[t][ch], bn, 9))
     \cup Fail("error of the current offset", IF e.yoff # <<>> THEN RelNear(o.ioff_err[t][ch], e.yoff[2], 9)
                                 ELSE ErrIs(o.ioff_err[t][ch], IF e.fitsc THEN yv ELSE w.vb))
     \cup Fail("bias offset", IF e.xoff # <<>> THEN RelNear(o.ibias_off[t][ch], e.xoff[1], 9)
                              ELSE IF e.fitsc THEN Tight(o.ibias_off[t][ch], xo, xscale) ELSE RIsZero(o.ibias_off[t][ch]))
     \cup Fail("error of the bias offset", IF e.xoff # <<>> THEN RelNear(o.ibias_off_err[t][ch], e.xoff[2], 9)
                              ELSE IF e.fitsc THEN ErrIs(o.ibias_off_err[t][ch], xv) ELSE RIsZero(o.ibias_off_err[t][ch]))
     \cup (LET rp == o.rp[t][ch] IN Fail("normal resistance is the total resistance less shunt and parasitic resistance",
             /\ Tight(o.rnorm[t][ch], RSub(RSub(o.rfit[t][ch], c.rsh), rp), RAdd(RAbs(o.rfit[t][ch]), RAdd(c.rsh, RAbs(rp))))
             /\ ErrIs(o.rnorm_err[t][ch], Sq2(o.rfit_err[t][ch], o.rp_err[t][ch]))))
     \cup (IF c.truth = <<>> \/ (e.fitsc = FALSE /\ c.truth[t][ch][5] = R0) \/ e.yoff # <<>> \/ e.xoff # <<>> THEN {} ELSE
           LET T == c.truth[t][ch] IN Fail("offsets and resistances of exact data are recovered",
             /\ ScNear(o.ioff[t][ch], T[1], 4, MaxFin(c.di[t][ch])) /\ ScNear(o.ibias_off[t][ch], T[2], 4, MaxFin(c.x[t][ch]))
             /\ ScNear(o.rp[t][ch], T[3], 4, RAdd(c.rsh, o.rfit[t][ch])) /\ ScNear(o.rnorm[t][ch], T[4], 4, o.rfit[t][ch])))
IbFails(c, e) ==
  IF e.exc # "" THEN {"the analysis raises an exception"}
  ELSE IF ~Shapes(c, e.o, IbTwo, IbThree) THEN {"one result per temperature, channel and bias point"}
  ELSE UNION {UNION {IF ~AllFin2(e.o, IbTwo, t, ch) THEN {"fit results are finite"}
                     ELSE IbFit(c, e, e.o, t, ch) \cup UNION {IbPoint(c, e, e.o, t, ch, i) : i \in 1..c.ni}
    : ch \in 1..c.nc} : t \in 1..c.nt}
=============================================================================
