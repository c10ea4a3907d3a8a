"""C29 pulse shapes and their fits; C30 muon tails."""
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import qetpy as qp
from chk_of import model_histories
from chk_didv import quiet

MOD = "NonlinTrace"
NPAR = {0: 2, 1: 3, 2: 4, 3: 6, 4: 8}
FREQ = {1: "onepole", 2: "twopole", 3: "threepole", 4: "fourpole"}
TIME = {2: "twopoletime", 3: "threepoletime", 4: "fourpoletime"}


def pars(rng, np_, fs, n, edge=False):
    """pulse parameters; time constants in bins between one and a third of the trace"""
    u = rng.uniform
    s = 1 / fs
    r, f1 = u(1., 2.5), u(4, .12 * n)
    f2 = f1 * u(2, 3)
    f3 = f2 * u(2, 3)
    t0 = rng.choice([u(3, n / 3), rng.randint(3, max(3, n // 3))])
    A = rng.choice([1., 1e-6, u(.5, 3), 300.])
    if edge:
        r, f1, f2, f3 = [10 ** u(-.5, 1.2) for _ in range(4)]
        t0 = rng.choice([0, rng.randint(0, n - 1), -rng.randint(0, 3), u(0, n - 1), 2 * n])
        A *= rng.choice([1, -1])
    if np_ == 0:
        return [A, f1 * s]
    if np_ == 1:
        return [A, f1 * s, t0 * s]
    if np_ == 2:
        return [A, r * s, f1 * s, t0 * s]
    B = A * u(.3, .8) * (rng.choice([1, -1]) if edge else 1)
    if np_ == 3:
        return [A, B, r * s, f1 * s, f2 * s, t0 * s]
    return [A, B, A * u(.2, .5), r * s, f1 * s, f2 * s, f3 * s, t0 * s]


def model_event(rng, which):
    np_ = rng.choice([2, 2, 3, 4]) if which == "time" else rng.choice([0, 1, 2, 2, 3, 4])
    fs = rng.choice([1., 625e3, 1e4, 3., 7e5])
    n = rng.choice([8, 9, 12, 16, 25])
    p = pars(rng, np_, fs, n, True)
    sc = rng.random() < .6
    tr = rng.uniform(.5, 3) / fs
    if np_ == 1 and abs(tr / p[1] - 1) < .05:
        tr *= 2
    if np_ == 2 and abs(p[1] / p[2] - 1) < .05:
        p[1] *= 2
    if which == "time":
        p[-1] = rng.choice([rng.randint(-n, 2 * n) / fs, rng.uniform(-2, n) / fs, float(np.float64(rng.randint(0, n)) / fs)])
    cls = qp.MuonTailFit if np_ == 0 else qp.OFnonlin
    o, exc = quiet(lambda: cls(np.ones(n), fs))
    ev = dict(op=which, np=np_, p=vec(p), n=n, fs=enc(fs), sc=sc, tr=enc(tr), exc=exc, v=[])
    if exc:
        return [ev]
    if np_ in (1, 2):
        o.scale_amplitude = sc
    if np_ == 1:
        o.taurise = tr
    name = "muontailfcn" if np_ == 0 else (TIME if which == "time" else FREQ)[np_]
    v, exc = quiet(lambda: getattr(o, name)(*p))
    ev["exc"] = exc
    if which == "time":
        ev["v"] = [] if exc else vec(v)
    else:
        k = sorted({1, 2, n // 2 + 1, n, rng.randint(1, n)})
        ev.update(k=k, v=[] if exc or np.shape(v) != (n,) else cvec(np.asarray(v)[np.array(k) - 1]))
    return [ev]


def pulse(np_, p, fs, n, sc, tr):
    """an independent rendering of the pulse: not rounded to whole bins"""
    t = np.arange(n) / fs
    if np_ == 0:
        return p[0] * np.exp(-t / p[1])
    d = np.clip(t - p[-1], 0, None)
    e = lambda q: np.exp(-d / q)
    if np_ <= 2:
        a, b = (tr, p[1]) if np_ == 1 else p[1:3]
        y = e(b) - e(a)
        tp = np.log(a / b) * a * b / (a - b)
        return p[0] * y / ((np.exp(-tp / b) - np.exp(-tp / a)) if sc else 1)
    m = (len(p) - 2) // 2
    return sum(c * e(q) for c, q in zip(p[:m], p[m + 1:-1])) - sum(p[:m]) * e(p[m])


def scene(rng, np_, n, fs=None):
    """the optimiser of the pulse fit takes steps of 6e-6 in every parameter: only at low rates are its fits at their minimum (see DESIGN.md)"""
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    fs = fs or rng.choice([1., 1., 20., 50.] + ([625e3, 1e4] if np_ == 0 else []))
    p = pars(rng, np_, fs, n)
    sc, tr = rng.random() < .6, rng.uniform(1, 2.5) / fs
    x = pulse(np_, p, fs, n, sc, tr)
    s = abs(x).max() * (rng.choice([.003, .01, .03]) if np_ < 3 else rng.choice([.003, .01]))
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    psd = s ** 2 / fs * (1 + rng.choice([0, 1, 3]) / (1 + (f * n / fs / 3) ** 2))
    noise = np.fft.ifft(np.fft.fft(r.randn(n)) * np.sqrt(psd * fs)).real
    return p, sc, tr, x + noise * rng.choice([0, 1, 1]), psd, fs


def fit_of(o, x, np_, sc, tr, kw, full):
    if np_ == 0:
        return o.fitmuontail(x, lgcfullrtn=full, **kw)
    return o.fit_falltimes(x, npolefit=np_, scale_amplitude=sc, taurise=tr if np_ == 1 else None, lgcfullrtn=full, **kw)


def default_bounds(np_, g, fs):
    lo, hi = [], []
    for i, q in enumerate(g):
        if i == len(g) - 1:
            lo.append(q - 30 / fs), hi.append(q + 30 / fs)
        else:
            k = 100 if i < (1 if np_ < 3 else np_ - 1) else 10
            lo.append(min(q / k, q * k)), hi.append(max(q / k, q * k))
    return lo, hi


def fit_trace(rng, np_, n):
    auto = np_ in (1, 2) and rng.random() < .2
    p, sc, tr, x, psd, fs = scene(rng, np_, n, rng.choice([1e4, 625e3]) if auto else None)
    kw = {}
    es = rng.choice([1, 1, 4, 2.5])
    if es != 1:
        kw["errscale"] = es
    lo, hi = [-np.inf] * NPAR[np_], [np.inf] * NPAR[np_]
    truth = p
    template = None
    if np_ == 0:
        amp = x.max() - x.min()
        tau = np.argmin(np.abs(x - amp / np.e)) / fs
        lo, hi = [0, 0], [amp * 100, tau * 100]
    else:
        how = "auto" if auto else rng.choice(["guess", "guess", "guess", "bounds", "negative", "start"])
        if how == "negative":
            k = 1 if np_ < 3 else np_ - 1
            p = [-q for q in p[:k]] + p[k:]
            x, truth = -x, p
        if how == "start":
            x = x - 0
            s0 = int(round(p[-1] * fs))
            p = p[:-1] + [0.]
            x = pulse(np_, p, fs, n, sc, tr)
            truth = p
        g = [q * rng.uniform(.93, 1.07) for q in p[:-1]] + [p[-1] + rng.uniform(-.4, .4) / fs * (how != "start")]
        if how != "auto":
            kw["guess"] = tuple(g) if rng.random() < .7 else list(g)
            lo, hi = default_bounds(np_, g, fs)
        if how == "bounds":
            lo = [q - abs(q) * .5 for q in p[:-1]] + [p[-1] - 3 / fs]
            hi = [q + abs(q) * .8 for q in p[:-1]] + [rng.choice([p[-1] + 3 / fs, np.inf])]
            kw["bounds"] = (list(lo), list(hi))
        if how == "auto":
            lo, hi = [-np.inf] * NPAR[np_], [np.inf] * NPAR[np_]
            truth = []
            if rng.random() < .4:
                template = x / abs(x).max()
    x0, psd0 = x.copy(), psd.copy()
    if np_ == 0:
        o, exc = quiet(lambda: qp.MuonTailFit(psd, fs))
    else:
        o, exc = quiet(lambda: qp.OFnonlin(psd, fs, template=template))
    full = True if np_ else rng.random() < .85
    ev = dict(op="fit", np=np_, x=vec(x0), psd=vec(psd0), fs=enc(fs), errscale=enc(es), sc=bool(sc and np_ < 3), tr=enc(tr), exc=exc, full=full, v=[], vshort=[],
              err=[], cov=[], chi2=enc(0), lo=vec(lo), hi=vec(hi), judge=np_ < 3 and not auto, truth=vec(truth) if len(truth) else [])
    if exc:
        return [ev]
    if rng.random() < .3:                                # the object has fitted another trace before
        k = 0 if np_ == 0 else rng.choice([np_, np_, 1, 2])
        p1, sc1, tr1, x1, _, _ = scene(rng, k, n, fs)
        quiet(lambda: fit_of(o, x1, k, sc1, tr1, dict(guess=tuple(p1)) if k else {}, True))
    r, ev["exc"] = quiet(lambda: fit_of(o, x, np_, sc, tr, kw, full))
    if ev["exc"]:
        return [ev]
    if full:
        ev.update(v=vec(r[0]), err=vec(r[1]), cov=mat(r[2]), chi2=enc(float(r[3])))
        if np_ and not r[4]:
            ev.update(truth=[], judge=False)           # the fit says that it did not converge
        s, ev["exc"] = quiet(lambda: fit_of(o, x, np_, sc, tr, kw, False))
        ev["vshort"] = [] if ev["exc"] else vec(s)
    else:
        ev["v"] = ev["vshort"] = vec(r)
    if rng.random() < .5:
        q = [u * rng.uniform(.7, 1.3) for u in p]
        name = {0: "muontailfcn", **FREQ}[np_]
        a, e1 = quiet(lambda: o.residuals(tuple(q)))
        b, e2 = quiet(lambda: float(o.calcchi2(getattr(o, name)(*q))))
        rs = dict({k: ev[k] for k in ("np", "x", "psd", "fs", "errscale", "sc", "tr")}, op="resid", q=vec(q), exc=e1 or e2, res=[], stat=enc(0))
        if not rs["exc"]:
            rs.update(res=vec(a), stat=enc(b))
        return [ev, rs]
    return [ev]


def coarse(rng):
    """a fixed input at a usual sampling rate"""
    import random
    g = random.Random(5)
    t = []
    for np_ in (1, 2):
        p, sc, tr, x, psd, fs = scene(g, np_, 64, 625e3)
        lo, hi = default_bounds(np_, p, fs)
        o, exc = quiet(lambda: qp.OFnonlin(psd, fs))
        r, exc = quiet(lambda: fit_of(o, x, np_, sc, tr, dict(guess=tuple(p)), True))
        if not exc:
            t.append(dict(op="fit", key="step of 6e-6 s at 625 kHz", np=np_, x=vec(x), psd=vec(psd), fs=enc(fs), errscale=enc(1), sc=sc, tr=enc(tr), exc=exc,
                          full=True, v=vec(r[0]), vshort=vec(r[0]), err=vec(r[1]), cov=mat(r[2]), chi2=enc(float(r[3])), lo=vec(lo), hi=vec(hi), judge=True, truth=[]))
    return t


def bad_trace(rng):
    np_ = rng.choice([1, 2, 3, 4])
    n = 32
    p, sc, tr, x, psd, fs = scene(rng, np_, n, 1.)
    o, exc = quiet(lambda: qp.OFnonlin(psd, fs))
    how = rng.choice(["rise", "len", "poles"])
    kw = dict(npolefit=np_, taurise=tr, guess=tuple(p))
    if how == "rise":
        kw.update(npolefit=1, taurise=None, guess=tuple(p[:3]) if rng.random() < .5 else None)
    elif how == "len":
        kw["guess"] = tuple(p[:-1]) if rng.random() < .5 else tuple(p) + (1.,)
    else:
        kw["npolefit"] = rng.choice([0, 5, -1, 7])
        if rng.random() < .5:
            kw["guess"] = None
    _, exc = quiet(lambda: o.fit_falltimes(x, **kw))
    return [dict(op="bad", exc=exc)]


def replay(rng, h):
    """a history of the object model, each fit against the same fit of a new object"""
    n, fs = 40, 1.
    S = {k: scene(rng, k, n, fs) for k in (1, 2, 3, 4)}
    psd = S[1][4]
    o, exc = quiet(lambda: qp.OFnonlin(psd, fs))
    out = []
    state = True
    for op in h:
        if op[0] == "f":
            k = int(op[1])
            p, _, tr, x = S[k][:4]
            run = lambda q: fit_of(q, x, k, not op.endswith("u"), tr, dict(guess=tuple(p)), True)
            a, e1 = quiet(lambda: run(o))
            b, e2 = quiet(lambda: run(qp.OFnonlin(psd, fs)))
            same = e1 == e2 and (bool(e1) or all(np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b)))
            out.append(dict(op="same", same=bool(same), exc=e1))
            state = not op.endswith("u") if not e1 else None
        elif op == "model":
            if state is None:
                continue
            p = S[2][0]
            v, exc = quiet(lambda: o.twopole(*p))
            k = [1, 2, n]
            out.append(dict(op="freq", np=2, p=vec(p), n=n, fs=enc(fs), sc=state, tr=enc(1.), exc=exc, k=k,
                            v=[] if exc or np.shape(v) != (n,) else cvec(np.asarray(v)[np.array(k) - 1])))
        else:
            k = 1 if op == "norise" else 3
            p, _, tr, x = S[k][:4]
            kw = dict(norise=dict(npolefit=1), badguess=dict(npolefit=3, guess=tuple(p[:-1])), badpoles=dict(npolefit=5))[op]
            _, exc = quiet(lambda: o.fit_falltimes(x, **kw))
            out.append(dict(op="bad", exc=exc))
            state = None
    return out


def c29(rep):
    rng = rep.rng
    rep.model("NonlinMC", "NonlinMC.cfg")
    rep.model("NonlinMC", "NonlinMCBroken.cfg", expect_violation=True)
    rep.model("NonlinObject", "NonlinObjectBroken.cfg", expect_violation=True)
    hs = model_histories(rep, "NonlinObject", rep.n("NonlinObject.cfg", "NonlinObject3.cfg"))
    rep.notes["histories_replayed"] = len(hs)
    T = [replay(rng, h) for h in hs]
    T += [model_event(rng, "freq") for _ in range(rep.n(250, 3000))]
    T += [model_event(rng, "time") for _ in range(rep.n(150, 2000))]
    T += [bad_trace(rng) for _ in range(rep.n(40, 300))]
    T += [fit_trace(rng, rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([40, 48, 64])) for _ in range(rep.n(70, 900))]
    T += [[e] for e in coarse(rng)]
    rep.validate(MOD, T, "pulse shapes and fits")


def c30(rep):
    rng = rep.rng
    rep.model("NonlinMC", "NonlinMC.cfg")
    T = [fit_trace(rng, 0, rng.choice([24, 33, 48, 64])) for _ in range(rep.n(90, 1200))]
    T += [t for t in (model_event(rng, "freq") for _ in range(rep.n(600, 6000))) if t[0]["np"] == 0]
    rep.validate(MOD, T, "muon tails")


CHECKS = dict(C29=c29, C30=c30)
