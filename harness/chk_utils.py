"""C16-C18: resampling, trace utilities, power/energy/offset/conductance."""
import numpy as np
from common import *
import qetpy as qp
from qetpy import utils as U

MOD = "UtilsTrace"


def chunks(ev, n=25):
    return [ev[i:i + n] for i in range(0, len(ev), n)]


def ints(rng, n, k=8, scale=1.0):
    return np.array([rng.randint(-k, k) for _ in range(n)], float) * scale


# ---------------------------------------------------------------- resampling
def factors(fs, sg):
    res, exc = call(lambda: U.resample_factors(fs, sg))
    return dict(op="factors", fs=enc(fs), sg=enc(sg), exc=exc, up=NONE if exc else sc(res[0]), down=NONE if exc else sc(res[1]))


def resample(rng):
    while True:
        fs, sg = rng.choice([(rng.randint(1, 12), rng.randint(1, 12)), (625000, 80), (625000, 90), (625000, 60), (15, 12), (10, 4),
                             (7, 7), (1000, 300), (9, 6), (12, 8), (2500000, 120)])
        up, down = U.resample_factors(fs, sg)
        if up <= 12 and down <= 12:
            break
    n = rng.randint(5, 24)
    two = rng.random() < .6
    x = np.array([ints(rng, n, 8, rng.choice([1, .5, 2. ** -20])) for _ in range(rng.randint(1, 3) if two else 1)])
    x = counts(rng, x)
    kw, arg, back = {}, x, lambda a: a
    if two and rng.random() < .4:
        kw["axis"] = 0
        arg, back = np.ascontiguousarray(x.T), lambda a: np.asarray(a).T
    elif not two:
        arg, back = x[0], lambda a: np.asarray(a)[np.newaxis]
    pad = rng.choice(["", "", "mean"])
    if pad:
        kw["padtype"] = pad
    res, exc = call(lambda: U.resample_data(arg, fs, sg, **kw))
    return dict(op="resample", fs=enc(fs), sg=enc(sg), up=enc(int(up)), down=enc(int(down)), pad=pad, x=mat(x), exc=exc,
                out=[] if exc else mat(back(res[0])), newfs=NONE if exc else sc(res[1]))


def c16(rep):
    OWN.append(1)
    rng, ev = rep.rng, []
    m = rep.n(40, 90)
    for fs in range(1, m + 1):
        for sg in range(1, m + 1):
            ev.append(factors(fs, sg))
    for _ in range(rep.n(1000, 10000)):
        a = rng.choice([rng.randint(1, 4000), rng.choice([625000, 1250000, 2500000, 1000000, 400000, 50000]),
                        2 ** rng.randint(1, 18) * 3 ** rng.randint(0, 5), rng.randint(1, 10 ** 6)])
        b = rng.choice([rng.randint(1, 300), rng.choice([60, 66, 70, 80, 90, 100, 120, 200]), rng.randint(1, 10 ** 5)])
        a, b = rng.choice([(a, b), (a, b), (float(a), b), (a, float(b)), (np.int64(a), np.float64(b))])
        ev.append(factors(a, b))
    for _ in range(40):
        a, b = rng.randint(2, 1000), rng.randint(2, 300)
        a, b = rng.choice([(a + .5, b), (a, b + .25), (a + 1e-6, b), (a - 1e-3, b), (a, b - 1e-9)])
        ev.append(factors(a, b))
    for _ in range(rep.n(60, 500)):
        ev.append(resample(rng))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev, 50), "resampling")


# ----------------------------------------------------------- trace utilities
def length(rng, lo, hi, big=1500):
    return rng.randint(big // 3, big) if rng.random() < .01 else rng.randint(lo, hi)


def shift(rng):
    n = length(rng, 1, 12)
    x = counts(rng, ints(rng, n, 9, rng.choice([1., 1e-6, .3])), .5)
    num = rng.choice([rng.randint(-n - 2, n + 2), rng.randint(-n - 2, n + 2), float(rng.randint(-n - 2, n + 2)),
                      rng.randint(-8 * n - 8, 8 * n + 8) / 8, rng.uniform(-n - 1, n + 1)])
    fill = rng.choice([None, 0, 1.5, -2.])
    res, exc = call(lambda: U.shift(x.copy(), num) if fill is None else U.shift(x.copy(), num, fill_value=fill))
    return dict(op="shift", x=vec(x), num=enc(num), fill=enc(fill or 0.), exc=exc, out=[] if exc else vec(res))


def template(rng):
    n = rng.randint(3, 40)
    fs = rng.choice([1e4, 625e3, 1.0])
    t = np.arange(n) / fs
    tf = rng.uniform(1, 12) / fs
    tr = tf * rng.uniform(.05, .8)
    off = rng.randint(-(n // 2) - rng.choice([0, n // 3]), n - n // 2 - 2)
    kw = {} if off == 0 or rng.random() < .15 else dict(offset=off)
    off = kw.get("offset", 0)
    res, exc = call(lambda: U.make_template(t, tr, tf, **kw))
    return dict(op="template", t=vec(t), taur=enc(tr), tauf=enc(tf), offset=off, exc=exc, out=[] if exc else vec(res))


def decreasing(rng):
    n = length(rng, 1, 14, 300)
    y = ints(rng, n, rng.choice([2, 5, 9]), rng.choice([1, 1e-12, .1]))
    if rng.random() < .3:
        y += 9
    y = counts(rng, y)
    x = None
    if rng.random() < .5:
        x = np.cumsum([rng.choice([1, .5, 2, 3.5]) for _ in range(n)])
        x = counts(rng, x)
    res, exc = call(lambda: U.make_decreasing(y.copy()) if x is None else U.make_decreasing(y.copy(), x=x.copy()))
    return dict(op="decreasing", y=vec(y), x=vec(np.arange(n) if x is None else x), exc=exc, out=[] if exc else vec(res))


def offset(rng):
    m = rng.randint(1, 5)
    didv = rng.random() < .6
    if didv:
        fs, sg = rng.choice([(1e5, 1e4), (625e3, 62500.), (1e6, 3e5), (1e5, 3e4), (1000., 60.), (400e3, 7e4), (48., 7.), (1., .1), (10., 3.), (7., 3.), (625e3, 7e4), (1e6, 6e4)])
        n = max(int(np.ceil(fs / sg)), rng.randint(4, 40))
        if rng.random() < .4:
            n = max(int(np.ceil(fs / sg)), round(rng.randint(1, 8) * fs / sg))
    else:
        n, fs, sg = rng.randint(1, 20), 1.0, 100.
    three, mag = rng.random() < .3, rng.choice([.5, 1.])
    nch = rng.randint(1, 3) if three else 1
    x = np.array([[ints(rng, n, 9, mag) + rng.choice([0, 20]) for _ in range(m)] for _ in range(nch)])     # channel, trace, bin
    x = counts(rng, x)
    arg = np.ascontiguousarray(np.swapaxes(x, 0, 1)) if three else x[0]
    kw = dict(fs=fs, sgfreq=sg, is_didv=True) if didv else rng.choice([{}, dict(fs=fs), dict(is_didv=False, fs=100., sgfreq=10.)])
    res, exc = call(lambda: U.calc_offset(arg, **kw))
    return dict(op="offset", x=[mat(c) for c in x], didv=didv, fs=enc(fs), sg=enc(sg), exc=exc,
                off=[] if exc else vec(res[0]), sd=[] if exc else vec(res[1]))


def slope(rng):
    n = length(rng, 2, 20)
    x = np.array(sorted(rng.sample(range(-40, 60 + 2 * n), n)), float) * rng.choice([1, .1, 1e-5])
    y = ints(rng, n, 9, rng.choice([1, 1e-3])) + rng.choice([0, 5, 100])
    x, y = counts(rng, x), counts(rng, y)
    rm = rng.random() < .7
    res, exc = call(lambda: U.slope(x, y) if rm and rng.random() < .5 else U.slope(x, y, removemeans=rm))
    return dict(op="slope", x=vec(x), y=vec(y), rm=rm, exc=exc, out=NONE if exc else sc(res))


def fill(rng):
    n = length(rng, 1, 14, 600)
    x = ints(rng, n, 5, rng.choice([1, 1e-24])) + rng.choice([0, 0, 3])
    if rng.random() < .05:
        x = -np.abs(x)
    x = counts(rng, x)
    keep = x.copy()
    res, exc = call(lambda: U.fill_negatives(x))
    return dict(op="fill", x=vec(keep), exc=exc, out=[] if exc else vec(res), inplace=[] if exc else vec(x if x.dtype.kind == 'f' else res))       # integers cannot hold interpolated values


def lowpass(rng):
    order = rng.choice([1, 1, 2])
    n = rng.randint(3 * (order + 1) + 1, 30)
    fs = rng.choice([625e3, 1e6, 1.0])
    cut = fs * rng.choice([.16, .05, .25, .4, .01])
    x = np.array([ints(rng, n, 9) for _ in range(rng.randint(1, 3))])
    x = counts(rng, x)
    arg, kw = x, dict(cut_off_freq=cut, fs=fs)
    if order != 1 or rng.random() < .3:
        kw["order"] = order
    if order == 1 and rng.random() < .2:
        cut, fs, kw = 1e5, 625e3, {}
    res, exc = call(lambda: U.lowpassfilter(arg, **kw))
    return dict(op="lowpass", x=mat(x), order=order, cut=enc(cut), fs=enc(fs), exc=exc, out=[] if exc else mat(res))


def align(rng):
    n = rng.randint(14, 40)
    m = rng.randint(1, 4)
    fs = rng.choice([625e3, 1e6])
    cut = rng.choice([5000., fs * .1, fs * .3, fs * .02])
    per = rng.choice([10, 14, n // 2, n])
    t = np.arange(n)
    x = []
    for _ in range(m):
        ph = rng.randint(0, 6)
        x.append(np.where(((t + ph) % per) < per // 2, 1., -1.) * rng.choice([1, 2, 4]) + ints(rng, n, 2, rng.choice([.125, 1, 1])) + rng.choice([0, 3]))
    x = counts(rng, np.array(x), .4)
    ncut = rng.choice([5000, rng.randint(8, n), rng.randint(8, n)])
    just = rng.random() < .4
    kw = dict(n_cut=ncut, cut_off_freq=cut, fs=fs)
    if cut == 5000. and fs == 625e3 and rng.random() < .7:
        kw = dict(n_cut=ncut)
    if just:
        kw["lgcjustshifts"] = True
    res, exc = call(lambda: U.align_traces(x.copy(), **kw))
    sh, out, mask = [], [], []
    if not exc:
        sh = vec(res if just else res[0])
        if not just:
            if isinstance(res[1], np.ma.MaskedArray):
                out = mat(res[1].data)
                mask = [[bool(v) for v in r] for r in np.ma.getmaskarray(res[1])]
    return dict(op="align", x=mat(x), ncut=ncut, cut=enc(cut), fs=enc(fs), justshifts=just, exc=exc, shifts=sh, out=out, mask=mask)


def c17(rep):
    OWN.append(1)
    rng, ev = rep.rng, []
    for f, q, t in [(shift, 500, 6000), (template, 150, 1500), (decreasing, 500, 6000), (offset, 300, 3000), (slope, 200, 2000),
                    (fill, 300, 3000), (lowpass, 60, 500), (align, 80, 600)]:
        ev += [f(rng) for _ in range(rep.n(q, t))]
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev), "trace utilities")


# ------------------------------------------------------- power, energy, G
def circuit(rng):
    return dict(ioff=rng.choice([0., rng.uniform(-2e-6, 2e-6)]), qetbias=rng.uniform(-3e-4, 3e-4), rload=rng.uniform(1e-3, 2e-2), rsh=rng.uniform(1e-3, 1e-2))


def stack(rng, n):
    m = rng.choice([0, 0, 1, 2, 3])
    x = np.array([ints(rng, n, 50, 1e-7) + rng.uniform(0, 1e-5) for _ in range(max(m, 1))])
    return (x[0] if m == 0 else x), x


def power(rng):
    arg, x = stack(rng, rng.randint(1, 12))
    c = circuit(rng)
    res, exc = call(lambda: U.powertrace_simple(arg, c["ioff"], c["qetbias"], c["rload"], c["rsh"]))
    return dict(op="power", x=mat(x), exc=exc, out=[] if exc else mat(np.atleast_2d(res)), **{k: enc(v) for k, v in c.items()})


def energy(rng):
    n = rng.randint(4, 14)
    arg, x = stack(rng, n)
    c = circuit(rng)
    fs = rng.choice([625e3, 1e5])
    kw = {}
    mode = rng.random()
    if mode < .6:
        kw["fs"] = fs
    elif mode < .95:
        kw["time"] = np.arange(n) / fs if rng.random() < .5 else np.cumsum([rng.uniform(.5, 2) for _ in range(n)]) / fs
    pre = post = 0
    base = [0.] * len(x)
    b = rng.random()
    if b < .35:
        base = [rng.uniform(-1e-5, 1e-5) for _ in x]
        kw["baseline"] = np.float64(base[0]) if arg.ndim == 1 else np.array(base)[:, np.newaxis]
        if rng.random() < .2:
            kw["indbasepre"] = 2
    elif b < .95:
        pre = rng.randint(1, n - 1)
        kw["indbasepre"] = pre
        if rng.random() < .6:
            post = rng.randint(pre, n - 1)
            kw["indbasepost"] = post
    elif rng.random() < .5:
        post = 2
        kw["indbasepost"] = post
    res, exc = call(lambda: U.energy_absorbed(arg, c["ioff"], c["qetbias"], c["rload"], c["rsh"], **kw))
    return dict(op="energy", x=mat(x), exc=exc, hasfs="fs" in kw, hastime="time" in kw, hasbase="baseline" in kw,
                haspre="indbasepre" in kw, haspost="indbasepost" in kw, fs=enc(fs), time=vec(kw.get("time", [])), base=vec(base),
                pre=pre, post=post, out=[] if exc else vec(np.atleast_1d(res)), **{k: enc(v) for k, v in c.items()})


def muonoff(rng):
    big = rng.random() < .15
    n = rng.randint(230, 300) if big else rng.randint(4, 40)
    x = ints(rng, n, 2, 1e-8)
    p = rng.randrange(n)
    w = rng.randint(1, n)
    x[p:p + w] += rng.uniform(1e-6, 1e-5)
    if big:
        p = rng.randint(1, 20)
        x[p:] += 1e-5
        x[p] += 1e-6
    c = circuit(rng)
    c["qetbias"] = abs(c["qetbias"]) + 1e-4
    del c["ioff"]
    rn = rng.uniform(5e-2, .5)
    nbase = rng.choice([6000, rng.randint(1, n), float(rng.randint(1, n))])
    kw = {} if nbase == 6000 else dict(nbaseline=nbase)
    if c["rsh"] < 3e-3:
        c["rsh"] = 5e-3
    else:
        kw["rsh"] = c["rsh"]
    full = rng.random() < .8
    if not full:
        kw["lgcfullrtn"] = False
    res, exc = call(lambda: U.get_offset_from_muon(x, c["qetbias"], rn, c["rload"], **kw))
    if not exc and full and len(res) != 4:
        exc = "wrong number of results"
    r = [NONE] * 4 if exc else [sc(v) for v in res] if full else [sc(res), NONE, NONE, NONE]
    return dict(op="muonoff", x=vec(x), rn=enc(rn), nbase=int(nbase), full=full, exc=exc, ioff=r[0], r0=r[1], i0=r[2], p0=r[3],
                **{k: enc(v) for k, v in c.items()})


def gest(rng):
    n = rng.choice([5, 5, 4, 6, 3])
    p0, tc = rng.uniform(1e-15, 1e-11), rng.uniform(.02, .1)
    tb = tc * rng.uniform(.1, .95)
    kw = {} if n == 5 and rng.random() < .5 else dict(n=n)
    hascov = rng.random() < .6
    perr, cov = 0., np.zeros((3, 3))
    if hascov:
        s = np.array([p0 * rng.uniform(0, .1), tc * rng.uniform(0, .05), tb * rng.uniform(0, .05)])
        A = np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]) + np.eye(3) * 1.5
        cov = (A @ A.T) * np.outer(s, s)
        cov = (cov + cov.T) / 2
        kw["cov"] = cov
        if rng.random() < .3:
            kw["p0_err"] = 1e-14
    elif rng.random() < .8:
        perr = p0 * rng.uniform(-.1, .1)
        kw["p0_err"] = perr
    res, exc = call(lambda: U.estimate_g(p0, tc, tb, **kw))
    return dict(op="g", p0=enc(p0), tc=enc(tc), tb=enc(tb), n=n, hascov=hascov, perr=enc(perr), cov=mat(cov), exc=exc,
                g=NONE if exc else sc(res[0]), gerr=NONE if exc else sc(res[1]))


def c18(rep):
    OWN.append(1)
    rng, ev = rep.rng, []
    for f, q, t in [(power, 200, 2000), (energy, 400, 4000), (muonoff, 200, 2000), (gest, 300, 3000)]:
        ev += [f(rng) for _ in range(rep.n(q, t))]
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev), "power, energy, offset, conductance")


CHECKS = dict(C16=c16, C17=c17, C18=c18)
