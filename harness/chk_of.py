"""C01-C07: the optimum filter."""
import itertools, json
from drv_of import *

MOD = "OptimumFilterTrace"


# ------------------------------------------------------- stand-alone functions
def f_new(cfg, x):
    """context event for calls of the stand-alone functions"""
    e = newev(cfg, x, "")
    return e


def rowsof(res, m):
    """m per-trace results out of arrays / scalars"""
    out = [np.atleast_1d(np.asarray(r)) for r in res]
    return out if all(o.shape == (m,) for o in out) else None


def f_ofamp(cfg, xs, rng, single):
    a = gen_fit_args(rng, cfg["n"])
    wd = rng.random() < .8
    lgcsigma = rng.random() < .5
    if a["nconstrain"] is not None and a["nconstrain"] <= 0 and not wd:
        a["nconstrain"] = None
    sig = xs[0] if single else np.array(xs)
    res, exc = call(lambda: qp.ofamp(sig, cfg["tmpl"], cfg["psd"], cfg["fs"], withdelay=wd,
                                     coupling=cfg["coupling"], integralnorm=cfg["integralnorm"], lgcsigma=lgcsigma,
                                     nconstrain=a["nconstrain"], lgcoutsidewindow=a["lgcoutsidewindow"]))
    b = dict(nconstrain=a["nconstrain"], lgcoutsidewindow=a["lgcoutsidewindow"])
    bad = wd and a["nconstrain"] is not None and a["nconstrain"] <= 0
    if bad:
        e = dict(op="f_ofamp_bad", exc=exc)
        return e
    m = len(xs)
    if not exc and len(res) != 3 + lgcsigma:
        exc = "wrong number of results"
    r = rowsof(res[:3], m) if not exc else None
    if not exc and r is None:
        exc = "wrong result shape"
    return dict(op="f_ofamp", exc=exc, sigs=[vec(x) for x in xs], lgcsigma=bool(lgcsigma),
                val=sc(res[3]) if lgcsigma and not exc else NONE,
                res=[] if exc else [dict(withdelay=wd, exc="", amp=sc(r[0][i]), t0=sc(r[1][i]), chi2=sc(r[2][i]), **argrec(b))
                                    for i in range(m)])


def f_pileup(cfg, x, rng):
    """events: first pulse (when fitted by the function itself) and second pulse"""
    a = gen_fit_args(rng, cfg["n"])
    if a["nconstrain"] is not None and a["nconstrain"] <= 0:
        a["nconstrain"] = 1
    nc1 = rng.choice([None, 1, 3, cfg["n"]])
    given = rng.random() < .5
    n = cfg["n"]
    d1 = rng.randint(-(n // 2), n - 1 - n // 2)
    a1 = rand_amp(rng, dict(cfg, integralnorm=False))
    kw = dict(a1=a1, t1=d1 / cfg["fs"]) if given else {}
    res, exc = call(lambda: qp.ofamp_pileup(x, cfg["tmpl"], cfg["psd"], cfg["fs"], coupling=cfg["coupling"],
                                            nconstrain1=nc1, nconstrain2=a["nconstrain"],
                                            lgcoutsidewindow=a["lgcoutsidewindow"], **kw))
    b = dict(nconstrain=a["nconstrain"], lgcoutsidewindow=a["lgcoutsidewindow"])
    if exc or len(res) != 5:
        return [dict(op="piter", a1=enc(a1), d1=d1, **argrec(b), **triple(None, exc or "wrong number of results"))]
    out = []
    r1, t1, r2, t2, chi2 = res
    if given:
        out.append(dict(op="same", what="given first pulse is returned", ok=bool(r1 == a1 and t1 == d1 / cfg["fs"])))
    else:
        out.append(dict(op="f_pile1", exc="", amp=sc(r1), t0=sc(t1), chi2=enc(0), **argrec(dict(nconstrain=nc1))))
    try:
        dd = int(np.round(float(t1) * cfg["fs"]))
    except Exception:
        dd = 0
    if np.isfinite(r1):
        out.append(dict(op="piter", a1=sc(r1), d1=dd, exc="", amp=sc(r2), t0=sc(t2), chi2=sc(chi2), **argrec(b)))
    return out


def f_pstat(cfg, x, rng):
    a = gen_fit_args(rng, cfg["n"])
    if a["nconstrain"] is not None and a["nconstrain"] <= 0:
        a["nconstrain"] = 1
    b = dict(nconstrain=a["nconstrain"], lgcoutsidewindow=a["lgcoutsidewindow"])
    res, exc = call(lambda: qp.ofamp_pileup_stationary(x, cfg["tmpl"], cfg["psd"], cfg["fs"], coupling=cfg["coupling"], **b))
    return dict(op="pstat", **argrec(b), **triple(res, exc, ("a1", "a2", "t2", "chi2")))


def f_chi0(cfg, xs, single):
    sig = xs[0] if single else np.array(xs)
    res, exc = call(lambda: qp.chi2_nopulse(sig, cfg["psd"], cfg["fs"], coupling=cfg["coupling"]))
    r = None if exc else rowsof([res], len(xs))
    if not exc and r is None:
        exc = "wrong result shape"
    return dict(op="f_chi0", exc=exc, sigs=[vec(x) for x in xs],
                res=[] if exc else [dict(exc="", chi2=sc(v)) for v in r[0]])


def gen_cut(rng, cfg):
    fs, n = cfg["fs"], cfg["n"]
    return rng.choice([0, fs / 4, fs / n, 2 * fs / n, fs / 2, fs, 1e9, 1.5 * fs / n])


def gen_t0(rng, cfg):
    fs = cfg["fs"]
    return rng.choice([0., 1 / fs, .37 / fs, -2.25 / fs])


def f_lowf(cfg, xs, rng, single):
    sig = xs[0] if single else np.array(xs)
    amps = [rand_amp(rng, dict(cfg, integralnorm=False)) for _ in xs]
    t0s = [gen_t0(rng, cfg) for _ in xs]
    fcut = gen_cut(rng, cfg)
    A, T = (amps[0], t0s[0]) if single else (np.array(amps), np.array(t0s))
    res, exc = call(lambda: qp.chi2lowfreq(sig, cfg["tmpl"], A, T, cfg["psd"], cfg["fs"], fcutoff=fcut, coupling=cfg["coupling"]))
    r = None if exc else rowsof([res], len(xs))
    if not exc and r is None:
        exc = "wrong result shape"
    return dict(op="f_lowf", exc=exc, sigs=[vec(x) for x in xs],
                res=[] if exc else [dict(exc="", chi2=sc(v), amp=enc(a), t0=enc(t), fcut=enc(fcut))
                                    for v, a, t in zip(r[0], amps, t0s)])


def plain(cfg):
    return dict(cfg, integralnorm=False)


# ------------------------------------------------------------------- checks
CALLS = ["nodelay", "withdelay", "piter", "pstat", "baseline", "chi0", "lowf", "eres", "tres"]


def histories(rep, count, steps, kinds, nmin=2, nmax=10, interp=.0, sigs=gen_sig, funcs=()):
    """random histories restricted to the given kinds of calls"""
    rng, out = rep.rng, []
    for i in range(count):
        cfg = gen_cfg(rng, nmin, nmax)
        if funcs and i % 3 == 0:
            c = cfg if set(funcs) <= {"ofamp", "stack"} else plain(cfg)
            x = sigs(rng, c)
            ev = [f_new(c, x)]
            for _ in range(max(2, steps // 2)):
                f = rng.choice(funcs)
                if f == "ofamp":
                    ev.append(f_ofamp(c, [sigs(rng, c)], rng, True))
                elif f == "pileup":
                    ev += f_pileup(c, x, rng)
                elif f == "pstat":
                    ev.append(f_pstat(c, x, rng))
                elif f == "chi0":
                    ev.append(f_chi0(c, [sigs(rng, c)], True))
                elif f == "lowf":
                    ev.append(f_lowf(c, [sigs(rng, c)], rng, True))
            out.append(ev)
            continue
        r = OFRec(cfg, sigs(rng, cfg))
        out.append(r.ev)
        if r.obj is None:
            continue
        others = [k for k in CALLS if k not in kinds] if rng.random() < .5 else []
        for _ in range(steps):
            if others and rng.random() < .4:                    # fits of another kind, judged by their own check, may not matter
                step(r, rng.choice(others), rng, rng.choice([0., 1.]), sigs)
                r.ev.pop()
            step(r, rng.choice(kinds), rng, interp, sigs)
    return out


def step(r, op, rng, interp=0., sigs=gen_sig):
    cfg, n = r.cfg, r.cfg["n"]
    a = gen_fit_args(rng, n)
    it = rng.random() < interp
    if op == "withdelay":
        r.withdelay(a, it)
    elif op == "baseline":
        r.baseline(a, it)
    elif op == "nodelay":
        r.nodelay(rng.choice([0, rng.randint(-n, n)]))
    elif op == "piter":
        r.piter(rand_amp(rng, cfg), rng.randint(-(n // 2), n - 1 - n // 2), a, it)
    elif op == "pstat":
        r.pstat(a)
    elif op == "chi0":
        r.chi0()
    elif op == "lowf":
        r.lowf(rand_amp(rng, cfg), gen_t0(rng, cfg), gen_cut(rng, cfg))
    elif op == "eres":
        r.eres()
    elif op == "tres":
        r.tres(rand_amp(rng, cfg))
    elif op == "update":
        r.update(sigs(rng, cfg))


def edge_sig(rng, cfg):
    """pulses whose best bin is the first or last of the trace"""
    n, t = cfg["n"], cfg["tmpl"]
    if rng.random() < .5:
        return gen_sig(rng, cfg)
    d = rng.choice([-(n // 2), n - 1 - n // 2, n - 1 - n // 2, rng.randint(0, n - 1)])
    x = np.array([round(rng.gauss(0, .05), 4) for _ in range(n)]) + rng.choice([1, 3, -2]) * np.roll(t, d)
    return x * cfg["unit"]


def windows_exhaustive(rep, n):
    """every window of one trace length on one object, both sides, all centres"""
    rng = rep.rng
    cfg = gen_cfg(rng, n, n)
    r = OFRec(cfg, gen_sig(rng, cfg))
    if r.obj is not None:
        for wc in range(-(n // 2) - 1, n - n // 2 + 1):
            for m in [None] + list(range(0, n + 2)):
                for side in (False, True):
                    r.withdelay(dict(nconstrain=m, lgcoutsidewindow=side, windowcenter=wc,
                                     pulse_direction_constraint=rng.choice([0, 0, 1, -1])))
    return r.ev


def c01(rep):
    tr = histories(rep, rep.n(600, 3000), 8, ["withdelay"] * 5 + ["update"], funcs=["ofamp"])
    tr += histories(rep, rep.n(30, 120), 6, ["withdelay"] * 5 + ["update"], nmin=16, nmax=rep.n(33, 64), funcs=["ofamp"])
    tr += histories(rep, rep.n(4, 12), 4, ["withdelay"] * 5 + ["update"], nmin=100, nmax=rep.n(130, 257), funcs=["ofamp"])
    tr += [windows_exhaustive(rep, n) for n in rep.n([3, 4, 5, 6], [2, 3, 4, 5, 6, 7, 8, 9])]
    rep.validate(MOD, tr, "optimum filter with delay", chunk=1500)


def c02(rep):
    kinds = ["nodelay"] * 3 + ["chi0", "lowf", "lowf", "eres", "tres", "tres", "update"]
    tr = histories(rep, rep.n(600, 3000), 10, kinds, funcs=["chi0", "lowf"])
    tr += histories(rep, rep.n(30, 100), 10, kinds, nmin=16, nmax=rep.n(33, 64), funcs=["chi0", "lowf"])
    tr += histories(rep, rep.n(4, 12), 4, kinds, nmin=100, nmax=rep.n(130, 257), funcs=["chi0", "lowf"])
    rep.validate(MOD, tr, "fixed-delay fit, chi-squares, resolutions", chunk=1500)


def c03(rep):
    kinds = ["piter"] * 3 + ["pstat"] * 3 + ["update"]
    tr = histories(rep, rep.n(600, 2500), 8, kinds, funcs=["pileup", "pstat"])
    tr += histories(rep, rep.n(30, 100), 6, kinds, nmin=16, nmax=rep.n(33, 64), funcs=["pileup", "pstat"])
    tr += histories(rep, rep.n(4, 12), 4, kinds, nmin=100, nmax=rep.n(130, 257), funcs=["pileup", "pstat"])
    rep.validate(MOD, tr, "pileup fits", chunk=1500)


def c04(rep):
    kinds = ["baseline"] * 4 + ["update"]
    tr = histories(rep, rep.n(600, 3000), 7, kinds)
    tr += histories(rep, rep.n(30, 100), 6, kinds, nmin=16, nmax=rep.n(33, 64))
    tr += histories(rep, rep.n(4, 12), 4, kinds, nmin=100, nmax=rep.n(130, 257))
    rep.validate(MOD, tr, "pulse plus baseline fit", chunk=1500)


def c05(rep):
    kinds = ["withdelay"] * 3 + ["baseline", "piter", "piter", "update"]
    tr = histories(rep, rep.n(600, 3000), 8, kinds, nmin=3, interp=1., sigs=edge_sig)
    tr += histories(rep, rep.n(30, 100), 6, kinds, nmin=16, nmax=rep.n(33, 64), interp=1., sigs=edge_sig)
    tr += histories(rep, rep.n(4, 12), 4, kinds, nmin=100, nmax=rep.n(130, 257), interp=1., sigs=edge_sig)
    rep.validate(MOD, tr, "sub-bin interpolation", chunk=1500)


HIST = re.compile(r'<<\s*"HIST",\s*"(.*?)"\s*>>', re.S)


def model_histories(rep, module, cfg, **kw):
    """the histories TLC enumerates in a design model"""
    r = rep.model(module, cfg, workers=8, **kw)
    hs = sorted(set(HIST.findall(r.out)))
    if not hs:
        raise MachineryError("no histories printed by " + module)
    return [json.loads(h.replace('\\"', '"')) for h in hs]


def c06(rep):
    rep.model("OFObject", "OFObjectBroken.cfg", expect_violation=True)
    hs = model_histories(rep, "OFObject", rep.n("OFObject.cfg", "OFObject4.cfg"))
    rng, tr = rep.rng, []
    rep.notes["histories_replayed"] = len(hs)
    for h in hs:
        cfg = gen_cfg(rng, 4, 6)
        r = OFRec(cfg, gen_sig(rng, cfg))
        tr.append(r.ev)
        if r.obj is None:
            continue
        for op in h:
            step(r, op, rng, .15)
    # longer random histories
    allk = ["nodelay", "withdelay", "piter", "pstat", "baseline", "chi0", "lowf", "eres", "tres", "update", "update", "update"]
    tr += histories(rep, rep.n(60, 800), 24, allk, nmin=4, nmax=9, interp=.15)
    rep.validate(MOD, tr, "history independence", chunk=2500)


def c07(rep):
    rng, tr = rep.rng, []
    for i in range(rep.n(160, 1800)):
        cfg = gen_cfg(rng, 2, 9)
        m = rng.choice([1, 1, 2, 2, 3, 5])
        if i % 8 == 0:
            m = rng.randint(6, 12)
        p = plain(cfg)
        ev = [f_new(cfg, gen_sig(rng, cfg))]
        for _ in range(3):
            xs = [gen_sig(rng, cfg) for _ in range(m)]
            if rng.random() < .2:
                xs = [xs[0] * (1 + k) for k in range(m)]
            ev.append(f_ofamp(cfg, xs, rng, m == 1 and rng.random() < .5))
        tr.append(ev)
        ev = [f_new(p, gen_sig(rng, p))]
        for _ in range(2):
            xs = [gen_sig(rng, p) for _ in range(m)]
            ev.append(f_chi0(p, xs, m == 1 and rng.random() < .5))
            ev.append(f_lowf(p, xs, rng, m == 1 and rng.random() < .5))
        tr.append(ev)
    rep.validate(MOD, tr, "stacks of traces", chunk=1500)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07)
