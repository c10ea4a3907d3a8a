"""C24-C27: dI/dV impedances, conversions, processing and fits."""
import contextlib, io, warnings
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import qetpy as qp
from qetpy.core.didv import _base_didv as B
from qetpy.utils import resample_data
try:
    from qetpy.core.didv._didv import didvinitfromdata
except ImportError:
    didvinitfromdata = qp.didvinitfromdata
from chk_of import model_histories

MOD = "DidvTrace"
NAMES = ["rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3"]
ONE, TWO = ["rsh", "rp", "L"], ["rsh", "rp", "r0", "beta", "l", "L", "tau0"]
MODEL = {1: ONE, 2: TWO, 3: NAMES}
POLE = {1: ["A", "tau2"], 2: ["A", "B", "tau1", "tau2"], 3: ["A", "B", "C", "tau1", "tau2", "tau3"]}


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f)


def par(p):
    return {k: [] if p.get(k) is None else [enc(float(p[k]))] for k in NAMES}


def params(rng, np_, T=1., tight=False):
    """small-signal parameters; T is the time scale in units of microseconds"""
    u = rng.uniform
    p = dict(rsh=u(3e-3, 1e-2), rp=u(2e-3, 1e-2))
    if np_ == 1:
        p["L"] = (p["rsh"] + p["rp"]) * u(2e-6, 1e-5) * T
        return p
    p.update(r0=u(.03, .2), beta=u(.1, 2), l=rng.choice([u(2, 15), u(.2, .7)]))
    a = p["rsh"] + p["rp"] + p["r0"] * (1 + p["beta"])
    p["L"] = a * u(1, 4) * 1e-6 * T
    p["tau0"] = abs(1 - p["l"]) * u(15, 60) * 1e-6 * T
    if np_ == 3:
        p.update(gratio=u(.1, .4), tau3=u(1, 4) * 1e-4 * T)
    return p


def unruly(rng, p):
    """values of either sign, and zero where the equations allow it"""
    for k in rng.sample(sorted(p), rng.randint(0, 2)):
        if k == "beta":
            p[k] = rng.choice([rng.uniform(-.9, -.1), 0., rng.uniform(0, .1)])
        elif k == "l":
            p[k] = rng.choice([rng.uniform(-3, -.1), 0., rng.uniform(.8, .95), rng.uniform(1.05, 1.5)])
        elif k in ("rp", "gratio"):
            p[k] = rng.choice([0., -.2 * p[k], p[k]])
        elif k in ("tau0", "L", "tau3"):
            p[k] = rng.choice([-p[k], p[k], 0. if k != "L" else p[k]])
    return p


def wild(rng):
    """any parameters, including those left out"""
    np_ = rng.choice([1, 2, 3])
    p = params(rng, np_)
    for k in list(p):
        if rng.random() < .15:
            p[k] = p[k] * rng.choice([.1, 10., 3.])
    if rng.random() < .3:
        p = unruly(rng, p)
    if "l" in p and abs(1 - p["l"]) < 1e-3:
        p["l"] = .5
    if rng.random() < .3:
        for k in rng.sample(NAMES, rng.randint(1, 3)):
            p.pop(k, None)
    if rng.random() < .2:
        p.setdefault(rng.choice(["gratio", "tau3"]), .1)
    return p


def npoles(p):
    for k in (3, 2, 1):
        if all(p.get(n) is not None for n in MODEL[k]):
            return k
    return 0


def z_event(rng):
    p = wild(rng)
    f = [rng.choice([0., 1., -1., 10 ** rng.uniform(0, 7), -10 ** rng.uniform(0, 7)]) for _ in range(rng.randint(1, 6))]
    if rng.random() < .5:
        f += [-x for x in f]
    kw = {k: v for k, v in p.items()}
    for k in NAMES:
        if k not in kw and rng.random() < .3:
            kw[k] = None
    if rng.random() < .3:
        kw["dt"] = 1e-6
    one = rng.random() < .25
    arg = f[0] if one else np.array(f)
    f = f[:1] if one else f
    z, exc = quiet(lambda: qp.compleximpedance(arg, **kw))
    z = z if exc else np.array(z)
    y, exc2 = quiet(lambda: qp.complexadmittance(arg, **kw))
    if exc != exc2:
        exc = exc + "/" + exc2
    return [dict(op="z", f=vec(f), p=par(p), z=[] if exc else cvec(np.atleast_1d(z)), y=[] if exc else cvec(np.atleast_1d(y)), exc=exc)]


def sq_event(rng, nmax):
    p = wild(rng)
    per = rng.randint(3, nmax)
    m = rng.choice([1, 1, 2, 3])
    sg = rng.choice([100., 1000., 40.])
    duty = rng.choice([.5, .5, rng.uniform(.1, .9)])
    amp = 10 ** rng.uniform(-7, -5)
    t = np.arange(per * m) / (sg * per)
    if rng.random() < .3:
        t = t + rng.uniform(-1, 1)
    a = dict(dutycycle=duty) if duty != .5 or rng.random() < .5 else {}
    out, exc = quiet(lambda: qp.squarewaveresponse(t, amp, sg, **a, **p))
    return [dict(op="sq", n=per * m, m=m, sg=enc(sg), amp=enc(amp), duty=enc(duty), p=par(p), out=[] if exc else vec(out), exc=exc)]


def conv_event(rng):
    conv = getattr(B._BaseDIDV, "_convertfromtesvalues", None)
    back = getattr(B._BaseDIDV, "_converttotesvalues", None)
    fall = getattr(B._BaseDIDV, "_findpolefalltimes", None)
    if None in (conv, back, fall):
        return None
    np_ = rng.choice([1, 2, 3])
    p = params(rng, np_)
    for k in p:
        if rng.random() < .2:
            p[k] *= rng.choice([.3, 3.])
    if rng.random() < .3:
        p = unruly(rng, p)
    if "l" in p and abs(1 - p["l"]) < 1e-3:
        p["l"] = .5
    dt = rng.choice([0., rng.uniform(-1e-5, 1e-5)])
    v = tuple(p[k] for k in MODEL[np_]) + (dt,)
    def go():
        q = conv(v)
        return q, back(q, p["rsh"], p.get("r0", .3), p["rp"]), fall(q)
    r, exc = quiet(go)
    pj = par(p)
    if np_ == 1:
        pj["r0"] = []
    q, b, f = r if not exc else ([], [], [])
    return [dict(op="conv", p=pj, dt=enc(dt), q=vec(q), back=vec(b), fall=cvec(f), exc=exc)]


def new(rng, raw, fs, sg, amp, rsh, cls=None, **kw):
    """construct and describe: (object, event)"""
    cls = cls or qp.DIDV
    o, exc = quiet(lambda: cls(raw, fs, sg, amp, rsh, **kw))
    ev = dict(op="dnew", fs=enc(float(fs)), sg=enc(float(sg)), amp=enc(amp), rsh=enc(rsh), gain=enc(float(kw.get("tracegain", 1.))),
              duty=enc(kw.get("dutycycle", .5)), add=bool(kw.get("add180phase", False)), dt0=enc(kw.get("dt0", 1e-5)),
              auto=bool(kw.get("autoresample", False)), exc=exc, raw=[], ufs=enc(0.), sameraw=True)
    if exc:
        return None, ev
    try:
        used, ufs = o._rawtraces, o._fs
    except AttributeError:                      # no way to look at the data any more
        return o, None
    ref = raw
    if np.mod(fs, sg) != 0:
        ref, _ = resample_data(raw, fs, sg)
    ev.update(ufs=enc(float(ufs)), fs=ev["fs"], raw=mat(used), sameraw=bool(np.array_equal(np.asarray(ref), np.asarray(used), equal_nan=True)))
    return o, ev


def proc_event(o):
    _, exc = quiet(o.processtraces)
    if exc:
        return dict(op="proc", exc=exc, o={})
    try:
        r = dict(tmean=vec(o._tmean), ntraces=int(o._ntraces), traces=mat(o._traces), dt0=enc(float(o._dt0)), time=vec(o._time),
                 freq=vec(o._freq), offset=enc(float(o._offset)), offset_err=enc(float(o._offset_err)), didvmean=cvec(o._didvmean),
                 didvstd=cvec(o._didvstd), flat=[int(i) for i in o._flatinds])
    except AttributeError:
        return None
    return dict(op="proc", exc="", o=r)


def wave(per, K, fs, sg, amp, p, dt):
    """square-wave response, computed from its harmonics alone"""
    t = np.arange(per * K) / fs - dt
    y = np.zeros(len(t))
    for h in range(1, (per + 1) // 2, 2):
        z = qp.complexadmittance(np.array([h * sg]), **p)[0]
        y += 2 * np.real(1j / (np.pi * h) * amp * p["rsh"] * z * np.exp(2j * np.pi * h * sg * t))
    return y


def proc_trace(rng, nmax):
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    per = rng.randint(6, nmax)
    K = rng.choice([1, 1, 2, 3]) if per < 20 else rng.choice([1, 2])
    sg = rng.choice([50, 100, 1000, 125])
    fs = float(per * sg)
    N = rng.choice([1, 2, 3, 4])
    nraw = per * K + rng.choice([0, 0, 1, rng.randint(0, per - 1), per - 1])
    amp, rsh = 10 ** rng.uniform(-7, -5), rng.uniform(3e-3, 1e-2)
    sca = rng.choice([1., 1e-6])
    raw = sca * (r.randn(N, nraw) * rng.choice([.1, 1.]) + np.sign((np.arange(nraw) % per) - per / 2 + .3) + r.randn())
    kw = {}
    if rng.random() < .5:
        kw["dt0"] = rng.choice([0., rng.uniform(-1, 1) / fs, rng.uniform(-.9, .9) / sg, rng.uniform(0, 2.) / sg])
    if rng.random() < .5:
        kw["add180phase"] = rng.random() < .7
    if rng.random() < .4:
        kw["dutycycle"] = rng.choice([.5, rng.uniform(.1, .9)])
    if rng.random() < .4:
        kw["tracegain"] = rng.choice([2., -5e3, 1e6])
    if rng.random() < .2 and sca == 1:
        raw = np.round(raw * 100).astype(int)
    elif rng.random() < .3 and N > 1:
        raw[rng.randrange(N), rng.randrange(nraw)] = np.nan
    if rng.random() < .15:
        fs += rng.choice([1., sg * .5, rng.uniform(0, sg)])
        kw["autoresample"] = rng.random() < .5
        fs = float(int(fs)) if rng.random() < .8 else fs
        if fs != int(fs):
            kw["autoresample"] = False             # resampling takes integer rates
        if np.mod(fs, sg) and kw["autoresample"]:
            if len(resample_data(raw[:1], fs, sg)[0][0]) > 5 * nmax:
                kw["autoresample"] = False
            if np.any(np.isnan(raw)):
                raw = np.nan_to_num(raw)
    o, ev = new(rng, raw, fs, sg, amp, rsh, cls=qp.DIDV if "r0" in kw else rng.choice([qp.DIDV, qp.DIDV, qp.DIDVPriors]), **kw)
    if ev is None:
        return None
    if o is None:
        return [ev]
    ev["fs"] = ev["ufs"] if kw.get("autoresample") else ev["fs"]
    return [ev] + [e for e in [proc_event(o) for _ in range(rng.choice([1, 1, 2]))] if e]


def new_event(rng):
    sg = rng.choice([10, 25, 7, 100])
    fs = rng.choice([sg * rng.randint(3, 12), sg * rng.randint(3, 12) + rng.randint(1, sg - 1), sg * rng.randint(3, 12) * 1.])
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    raw = r.randn(2, rng.randint(20, 40))
    kw = dict(autoresample=True) if rng.random() < .4 else {}
    cls = rng.choice([qp.DIDV, qp.DIDVPriors])
    if np.mod(fs, sg) and kw and len(resample_data(raw[:1], fs, sg)[0][0]) > 400:
        kw = {}
    o, ev = new(rng, raw, fs, sg, 1e-6, 5e-3, cls=cls, **kw)
    if ev is None:
        return None
    ev["raw"] = [vec(q[:40]) for q in raw]         # the data themselves are not judged here
    ev["op"] = "dref"
    return [ev]


def record(r, np_, pri=False):
    names = MODEL[np_] + ["dt"] if pri else POLE[np_] + ["dt"]
    q = dict(params={k: enc(float(v)) for k, v in r["params"].items()}, errors={k: enc(float(v)) for k, v in r["errors"].items()},
             cov=mat(r["cov"]), cost=enc(float(r["cost"])), fall=cvec(np.atleast_1d(r["falltimes"])), didv0=enc(float(r["didv0"])))
    if pri:
        q.update(pri=vec(r["priors"]), pcov=mat(r["priorscov"]))
    else:
        q["ss"] = {k: enc(float(v)) for k, v in r["smallsignalparams"].items()}
    return q


def at_edge(r):
    v = np.array([r["params"][k] for k in r["params"] if k != "dt"], float)
    s = np.array([r["errors"][k] for k in r["params"] if k != "dt"], float)
    return bool(np.any(~np.isfinite(s)) or np.any(np.abs(v) < 5 * s))


def fit_event(o, np_, fc=None, truth=None):
    a = {} if fc is None else dict(fcutoff=fc)
    _, exc = quiet(lambda: o.dofit(np_, **a))
    ev = dict(op="fit", np=np_, fc=[] if fc is None else [enc(float(fc))], exc=exc, r={}, edge=True, truth=[])
    if not exc and np_ in (1, 2, 3):
        r, exc = quiet(lambda: o.fitresult(np_))
        if exc or not r:
            ev["exc"] = exc or "no record"
        else:
            ev.update(r=record(r, np_), edge=at_edge(r), truth=[] if truth is None else vec(truth))
    return ev


def flatten(r):
    return [] if not r else list(map(float, list(r["params"].values()) + list(r["errors"].values()) + list(np.ravel(r["cov"])) + [r["cost"]]))


def same(a, b):
    return len(a) == len(b) and all(p == q or (p != p and q != q) for p, q in zip(a, b))


def avail_events(o, seen, just):
    """query every pole count; seen: what each returned last"""
    out = []
    for k in (1, 2, 3):
        r, exc = quiet(lambda: o.fitresult(k))
        v = [] if exc else flatten(r)
        out.append(dict(op="avail", np=k, empty=not exc and r == {}, exc=exc, same=bool(k == just or same(v, seen.get(k, [])))))
        seen[k] = v
    return out


def data_event(o, rsh, r0, rp):
    try:
        return dict(op="data", freq=vec(o._freq), didv=cvec(o._didvmean), std=cvec(o._didvstd), rsh=enc(rsh), r0=enc(r0), rp=enc(rp))
    except AttributeError:
        return None


def tes(rng, np_, small=False):
    sg = rng.choice([2000., 3125., 1250.])
    per = rng.choice([64, 80] if small else [64, 80, 100, 160])
    return sg, per, sg * per, params(rng, np_)


def pole_of(p, np_):
    """pole parameters of small-signal parameters"""
    A = p["rsh"] + p["rp"]
    if np_ == 1:
        return [A, p["L"] / A]
    A += p["r0"] * (1 + p["beta"])
    B_ = p["r0"] * p["l"] / (1 - p["l"]) * (2 + p["beta"])
    t1, t2 = p["tau0"] / (1 - p["l"]), p["L"] / A
    return [A, B_, t1, t2] if np_ == 2 else [A, B_, p["gratio"] / (1 - p["l"]), t1, t2, p["tau3"]]


def exact(rng, np_, small=False):
    """averaged data of a known circuit with or without noise"""
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    sg, per, fs, p = tes(rng, np_, small)
    f = np.fft.fftfreq(per, 1 / fs)
    dt = rng.choice([0., rng.uniform(-.5, .5) / fs])
    h = np.rint(f / sg).astype(int)
    live = h % 2 == 1
    live[per // 2] = False
    Y = qp.complexadmittance(f, **p) * np.exp(-2j * np.pi * f * dt)
    std = rng.choice([1e-3, 1e-2 if np_ == 1 else 1e-3]) * np.abs(Y).max()
    z = r.randn(per) + 1j * r.randn(per)
    k = np.arange(1, (per + 1) // 2)
    z[-k] = z[k].conj()
    noisy = rng.random() < .5
    y = np.where(live, Y + std * z * noisy, 1 + 1j)
    s = np.where(live, std * (1 + .3 * np.cos(h)), 1e20) + 1j * np.where(live, std * (1 + .3 * np.sin(h) ** 2), 1e20)
    tm = wave(per, 1, fs, sg, 1e-6, p, dt)
    add = rng.random() < .3
    d0 = dt - .5 / sg if add else dt
    kw = dict(rp=p["rp"], dt0=d0, r0=p.get("r0", .3))
    if add or rng.random() < .5:
        kw["add180phase"] = add
    o, exc = quiet(lambda: didvinitfromdata(tm, y, s, 0., 0., fs, sg, 1e-6, p["rsh"], **kw))
    return o, exc, p, dt, fs


def fit_trace(rng):
    np_ = rng.choice([1, 2, 2, 3])
    o, exc, p, dt, fs = exact(rng, np_)
    if exc:
        return [dict(op="fit", np=np_, fc=[], exc=exc, r={}, edge=True, truth=[])]
    ev = data_event(o, p["rsh"], p.get("r0", .3), p["rp"])
    if ev is None:
        return None
    out = [ev]
    if np_ == 3 and rng.random() < .5:
        quiet(lambda: o.dofit(2))
    fc = rng.choice([None, None, .35 * fs])
    out.append(fit_event(o, np_, fc, pole_of(p, np_) + [dt]))
    if np_ == 1 and rng.random() < .3:
        out.append(fit_event(o, rng.choice([0, 4, -1])))
    return out


def with_priors(rng, np_):
    """averaged data in an object that takes priors, and priors for it"""
    g, exc, p, dt, fs = exact(rng, np_, small=True)
    if exc:
        return None
    kw = dict(dt0=float(getattr(g, "_dt0", dt)))
    o, exc = quiet(lambda: qp.DIDVPriors(None, fs, g._sgfreq, 1e-6, p["rsh"], **kw))
    try:
        for a in ["_didvmean", "_didvstd", "_offset", "_offset_err", "_tmean", "_time", "_freq", "_flatinds"]:
            setattr(o, a, getattr(g, a))
    except AttributeError:
        return None
    truth = np.array([p[k] for k in MODEL[np_]] + [dt])
    m = len(truth)
    c, pri = np.zeros((m, m)), np.zeros(m)
    know = [0, 1] + ([2] if np_ > 1 else []) + [i for i in range(2, m - 1) if rng.random() < .3]
    for i in sorted(set(know)):
        pri[i] = truth[i] * (1 + .05 * rng.choice([0, 0, rng.uniform(-1, 1)]))
        c[i, i] = (rng.choice([.1, .05, .02]) * truth[i]) ** 2
    if rng.random() < .4:
        c[0, 1] = c[1, 0] = rng.uniform(-.7, .7) * np.sqrt(c[0, 0] * c[1, 1])
    return g, o, p, truth, fs, pri, c


def pri_trace(rng):
    np_ = rng.choice([1, 1, 2, 2, 3])
    got = with_priors(rng, np_)
    if got is None:
        return None
    g, o, p, truth, fs, pri, c = got
    fc = rng.choice([None, None, .35 * fs])
    a = {} if fc is None else dict(fcutoff=fc)
    p0, c0 = pri.copy(), c.copy()
    _, exc = quiet(lambda: o.dofit(np_, pri, c, **a))
    ev = dict(op="pfit", np=np_, fc=[] if fc is None else [enc(float(fc))], pri=vec(p0), pcov=mat(c0), exc=exc, r={}, truth=[])
    out = [data_event(g, p["rsh"], p.get("r0", .3), p["rp"])]
    if not exc:
        r, exc = quiet(lambda: o.fitresult(np_))
        if exc or not r:
            ev["exc"] = exc or "no record"
        else:
            ev.update(r=record(r, np_, True), truth=vec(truth))
    out.append(ev)
    out += avail_events(o, {np_: flatten(r)} if not exc else {}, np_)
    return out


def replay(rng, h):
    """a history from the object model on real traces"""
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    np_ = 3 if "fit3" in h else 2
    sg, per, fs, p = 2000., 64, 128000., params(rng, np_)
    dt = rng.uniform(-.3, .3) / fs
    amp = 1e-6
    y = wave(per, 1, fs, sg, amp, p, dt)
    raw = y + np.std(y) * .01 * r.randn(5, per) + np.std(y) * r.rand()
    add = rng.random() < .6
    o, ev = new(rng, raw, fs, sg, amp, p["rsh"], add180phase=add, dt0=dt - .5 / sg if add else dt, r0=p["r0"], rp=p["rp"])
    if ev is None:
        return None
    out, seen, d = [ev], {}, False
    for op in h:
        if op == "process":
            e = proc_event(o)
            just, tail = 0, [e] if e else []
        else:
            k = 4 if op == "fitbad" else int(op[3])
            e = fit_event(o, k)
            just, tail = k, [e]
        if not d:
            de = data_event(o, p["rsh"], p["r0"], p["rp"])
            if de is None:
                return None
            out, d = out + [de], True
        out += tail + avail_events(o, seen, just)
    return out


def clean(T):
    return [t for t in T if t]


def c24(rep):
    OWN.append(1)
    rng = rep.rng
    T = [z_event(rng) for _ in range(rep.n(400, 5000))]
    T += [sq_event(rng, rep.n(14, 24)) for _ in range(rep.n(150, 1500))]
    rep.validate(MOD, T, "impedances and square-wave responses")


def c25(rep):
    OWN.append(1)
    rng = rep.rng
    T = clean([conv_event(rng) for _ in range(rep.n(400, 5000))])
    T += clean([fit_trace(rng) for _ in range(rep.n(25, 300))])
    rep.validate(MOD, T, "parameter conversions")


def c26(rep):
    rng = rep.rng
    rep.model("DidvObject", "DidvObjectBroken.cfg", expect_violation=True)
    T = clean([proc_trace(rng, rep.n(20, 32)) for _ in range(rep.n(120, 1500))])
    T += clean([new_event(rng) for _ in range(rep.n(60, 600))])
    rep.validate(MOD, T, "processing of traces")


def c27(rep):
    rng = rep.rng
    hs = model_histories(rep, "DidvObject", rep.n("DidvObject.cfg", "DidvObject4.cfg"))
    rep.notes["histories_replayed"] = len(hs)
    T = clean([replay(rng, h) for h in hs])
    T += clean([fit_trace(rng) for _ in range(rep.n(40, 500))])
    T += clean([pri_trace(rng) for _ in range(rep.n(25, 300))])
    rep.validate(MOD, T, "fits and their records")


CHECKS = dict(C24=c24, C25=c25, C26=c26, C27=c27)
