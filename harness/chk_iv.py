"""C22, C23: IV and IBIS analyses."""
import contextlib, io
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import qetpy as qp
from qetpy.core import _iv

MOD = "IvTrace"


def v3(a):
    try:
        a = np.asarray(a, float)
        return [[vec(q) for q in p] for p in a] if a.ndim == 3 else []
    except Exception:
        return []


def v2(a):
    try:
        a = np.asarray(a, float)
        return [vec(p) for p in a] if a.ndim == 2 else []
    except Exception:
        return []


def form(rng, nt, nc, ni, base, ebase):
    """a resistance in one of its accepted forms: (form, argument, error argument, encoded, encoded)"""
    k = rng.randint(0, 3)
    shp = [(), (nc,), (nt, nc), (nt, nc, ni)][k]
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    if k == 0:
        a, b = float(base), float(ebase)
        return k, a, b, enc(a), enc(b)
    a, b = base * (1 + .3 * r.rand(*shp)), ebase * (1 + r.rand(*shp))
    e = [None, vec, mat, v3][k]
    return k, a, b, e(a), e(b)


def point3(a, k, t, c, i):
    return a if k == 0 else a[c] if k == 1 else a[t, c] if k == 2 else a[t, c, i]


def dims(rng, nt, nc):
    """how the data may be handed over: number of dimensions"""
    return rng.choice([1, 2, 3] if nt == nc == 1 else [2, 3] if nt == 1 else [3])


def hand(a, nd):
    return a if nd == 3 else a[0] if nd == 2 else a[0, 0]


def picks(rng, lo, hi):
    """indices of a branch, in one of the forms a user passes"""
    ix = list(range(lo, hi))
    how = rng.choice(["range", "range", "list", "array", "sub"])
    if how == "sub" and len(ix) > 3:
        ix = sorted(rng.sample(ix, len(ix) - 1))
        if rng.random() < .3:
            rng.shuffle(ix)
    arg = range(lo, hi) if how == "range" else np.array(ix) if how == "array" else ix
    return arg, ix


def snap(o, two, three):
    return dict([(f, v2(getattr(o, f, None))) for f in two] + [(f, v3(getattr(o, f, None))) for f in three])


TWO = ["ioff", "ioff_err", "rfit", "rfit_err", "rnorm", "rnorm_err"]
THREE = ["ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err"]
TWOB = TWO + ["ibias_off", "ibias_off_err", "rp", "rp_err"]
THREEB = THREE + ["ibias_true", "ibias_true_err", "vb", "vb_err", "slope_n", "int_n", "slope_sc", "int_sc"]


def names(rng, nc):
    return ["ch%d" % k for k in range(nc)]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return call(f)


def iv_trace(rng):
    nt, nc = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2), (2, 3)])
    ni, kn = rng.randint(6, 9), rng.randint(3, 5)
    si = rng.choice([1., 1e-6, 1e-6])                       # amperes or microamperes
    sr = rng.choice([1., 1e-2])
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    rform, ra, rea, rj, rej = form(rng, nt, nc, ni, 0.2 * sr, .01 * sr)
    exact = rng.random() < .4
    di, die, vb, vbe = (np.full((nt, nc, ni), np.nan) for _ in range(4))
    truth = []
    for t in range(nt):
        row = []
        for c in range(nc):
            n = ni if t == 0 or rng.random() < .5 else ni - 1
            rn, off = sr * (.5 + r.rand()), si * r.randn() * rng.choice([0, 1, 1, 1])
            i0 = 5 * si * (1 + r.rand())
            v = np.sort(i0 * rn * (.2 + np.arange(n) + .3 * r.rand(n)))[::-1] * rng.choice([1, 1, -1])
            rl = np.array([point3(ra, rform, t, c, 0) for _ in range(n)])
            rt = np.full(n, rn)
            rt[kn:] = rn * np.linspace(.7, .05, n - kn)
            y = v / (rt + rl) + off
            s = si * 10 ** rng.uniform(-2.5, -1) * (.5 + 2 * r.rand(n))
            if not exact:
                y = y + s * r.randn(n)
            di[t, c, :n], die[t, c, :n], vb[t, c, :n] = y, s, v
            vbe[t, c, :n] = rng.choice([0., 1e-3]) * i0 * rn * r.rand(n)
            row.append([enc(off), enc(rn)])
        truth.append(row)
    nd = dims(rng, nt, nc)
    ev = dict(op="ivnew", nt=nt, nc=nc, ni=ni, di=v3(di), die=v3(die), x=v3(vb), xe=v3(vbe), rform=rform, r=rj, re=rej,
              truth=truth if exact else [], bad=False, exc="")
    auto = (not exact) and rng.random() < .6
    arg, ix = (None, []) if auto else picks(rng, 0, kn)
    o, ev["exc"] = quiet(lambda: qp.IV(hand(di, nd), hand(die, nd), hand(vb, nd), hand(vbe, nd), ra, rea, names(rng, nc), normalinds=arg))
    out = [ev]
    if not ev["exc"]:
        for k in range(rng.choice([1, 1, 2])):
            if k:
                auto = not auto and not exact
                arg, ix = (None, []) if auto else picks(rng, 0, kn)
                o.normalinds = arg
            _, exc = quiet(o.calc_iv)
            out.append(dict(op="iv", auto=auto, norm=ix, exc=exc, o={} if exc else snap(o, TWO, THREE)))
    return out


def ib_trace(rng):
    nt, nc = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2), (2, 3)])
    ni, kn, ks = rng.randint(7, 10), rng.randint(2, 4), rng.randint(2, 3)
    si = rng.choice([1., 1e-6, 1e-6])
    rsh = rng.choice([.02, .005, 1.])
    rshe = rng.choice([0., .01, .05]) * rsh
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    rform, ra, rea, rj, rej = form(rng, nt, nc, ni, .3 * rsh, rng.choice([0., .05]) * rsh)
    exact = rng.random() < .4
    flip = rng.random() < .3
    integer = rng.random() < .1 and si == 1.
    di, die, x, xe = (np.full((nt, nc, ni), np.nan) for _ in range(4))
    truth = []
    for t in range(nt):
        row = []
        for c in range(nc):
            n = ni if t == 0 or rng.random() < .5 else ni - 1
            if integer:
                n = ni
            rp = point3(ra, rform, t, c, 0)
            rn = rsh * (3 + 5 * r.rand())
            off = si * r.randn() * rng.choice([0, 1, 1, 1])
            ob = 0. if rng.random() < .4 else si * 3 * r.randn()
            b = np.sort(si * (2 + 10 * np.arange(n) + 3 * r.rand(n)))
            rt = np.zeros(n)
            rt[ks:n - kn] = rn * np.linspace(.2, .8, max(n - kn - ks, 0))
            rt[n - kn:] = rn
            if flip:
                b, rt = b[::-1], rt[::-1]
            b = b * (-1 if rng.random() < .2 else 1)
            y = b * rsh / (rsh + rp + rt) + off
            s = si * 10 ** rng.uniform(-2.5, -1) * (.5 + 2 * r.rand(n))
            if not exact:
                y = y + s * r.randn(n)
            if integer:
                y = np.round(4 * y)
            di[t, c, :n], die[t, c, :n], x[t, c, :n] = y, s, b + ob
            xe[t, c, :n] = rng.choice([0., 1e-2]) * si * r.rand(n)
            row.append([enc(off), enc(ob), enc(rp), enc(rn), enc(float(ob == 0 and rform != 3))])
        truth.append(row)
    if integer:
        di = di.astype(int)
    nd = dims(rng, nt, nc)
    lo = 0 if flip else ni - kn
    if not flip and np.any(np.isnan(di)):
        lo -= 1                                             # keep padded points out of the fit
        truth, exact = [], False
    nlo, nhi = (0, kn) if flip else (lo, lo + kn)
    slo, shi = (ni - 1 - ks if np.any(np.isnan(di)) else ni - ks, ni - 1 if np.any(np.isnan(di)) else ni) if flip else (0, ks)
    if flip and np.any(np.isnan(di)):
        exact = False
    if integer:
        exact = False
    fitsc = rng.random() < .6
    narg, nix = picks(rng, nlo, nhi)
    sarg, six = picks(rng, slo, shi)
    ev = dict(op="ibnew", nt=nt, nc=nc, ni=ni, di=v3(di), die=v3(die), x=v3(x), xe=v3(xe), rsh=enc(rsh), rshe=enc(rshe),
              rform=rform, r=rj, re=rej, truth=truth if exact else [], bad=False, exc="")
    kw = dict(rp_guess=ra, rp_err_guess=rea, chan_names=names(rng, nc))
    if fitsc:
        kw.update(fitsc=True, scinds=sarg)
    o, ev["exc"] = quiet(lambda: qp.IBIS(hand(di, nd), hand(die, nd), hand(x, nd), hand(xe, nd), rsh, rshe, narg, **kw))
    out = [ev]
    if not ev["exc"]:
        for k in range(rng.choice([1, 2, 2])):
            a = {}
            yoff, xoff = [], []
            if rng.random() < .25:
                yoff = [float(si * r.randn()), float(si * .1 * r.rand())]
                a.update(yoff=yoff[0], yoff_err=yoff[1])
            if rng.random() < .25:
                xoff = [float(si * r.randn()), float(si * .1 * r.rand())]
                a.update(xoff=xoff[0], xoff_err=xoff[1])
            if k and rng.random() < .4:
                fitsc = not fitsc
                o.fitsc, o.scinds = fitsc, sarg
            _, exc = quiet(lambda: o.analyze(**a))
            out.append(dict(op="ibis", norm=nix, sc=six, fitsc=fitsc, yoff=vec(yoff), xoff=vec(xoff), exc=exc,
                            o={} if exc else snap(o, TWOB, THREEB)))
            if exc:
                break
    return out


def bad_new(rng, which):
    """arguments that the documentation rules out"""
    nt, nc, ni = 1, rng.randint(1, 3), 6
    x = np.arange(nc * ni, dtype=float).reshape(nt, nc, ni)
    k = rng.choice(["names", "dims", "res"] + (["sc"] if which == "ib" else []))
    nm, ra, kw = names(rng, nc), .1, {}
    if k == "names":
        nm = nm + ["x"] if rng.random() < .5 else nm[:-1]
    elif k == "dims":
        x = x[np.newaxis]
    elif k == "res":
        ra = np.full(rng.choice([(nc + 1,), (nt + 1, nc), (nt, nc, ni + 1)]), .1)
    else:
        kw = dict(fitsc=True)
    z = dict(nt=0, nc=0, ni=0, di=[], die=[], x=[], xe=[], rform=0, r=enc(0), re=enc(0), truth=[], bad=True)
    if which == "iv":
        _, exc = quiet(lambda: qp.IV(x, x, x, x, ra, ra, nm))
    else:
        _, exc = quiet(lambda: qp.IBIS(x, x, x, x, .1, .1, range(3), rp_guess=ra, rp_err_guess=ra, chan_names=nm, **kw))
    return [dict(op=which + "new", exc=exc, **z)]


def branch(rng):
    """the search for the normal branch on its own"""
    n = rng.randint(3, 10)
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    k = rng.randint(2, n)
    x = np.sort(r.rand(n) * 5 + np.arange(n))[::-1].copy()
    y = 1.5 * x + r.randn()
    y[k:] += np.cumsum(rng.choice([0, .3, 2., 10.]) * (.3 + r.rand(n - k)))
    s = rng.choice([.05, .1, .5]) * (.5 + r.rand(n))
    y += s * r.randn(n) * rng.choice([0, 1, 3])
    sc = rng.choice([1., 1e-6])
    y, s = y * sc, s * sc
    pad = rng.choice([0, 0, 1, 2])
    f = lambda a: np.concatenate([a, np.full(pad, np.nan)])
    fn = getattr(_iv, "_findnormalinds", None)          # an internal: judged when it is there
    if fn is None:
        return []
    res, exc = quiet(lambda: fn(f(x), f(y), f(s)))
    return [dict(op="branch", x=vec(f(x)), y=vec(f(y)), s=vec(f(s)), out=[] if exc else [int(q) for q in res], exc=exc)]


def c22(rep):
    rng = rep.rng
    rep.model("IvMC", "IvMCBroken.cfg", expect_violation=True)
    rep.model("IvMC", rep.n("IvMC.cfg", "IvMCDeep.cfg"))
    T = [iv_trace(rng) for _ in range(rep.n(240, 1500))]
    T += [bad_new(rng, "iv") for _ in range(rep.n(20, 100))]
    T += [branch(rng) for _ in range(rep.n(250, 1500))]
    rep.validate(MOD, T, "IV analyses")


def c23(rep):
    rng = rep.rng
    T = [ib_trace(rng) for _ in range(rep.n(250, 1500))]
    T += [bad_new(rng, "ib") for _ in range(rep.n(20, 100))]
    rep.validate(MOD, T, "IBIS analyses")


CHECKS = dict(C22=c22, C23=c23)
