"""C19-C21: power spectral densities, the noise object, generated noise."""
import contextlib, io, os, pickle, tempfile
import numpy as np
from common import *
from chk_of import model_histories
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import qetpy as qp
from qetpy.core._noise import foldpsd, calc_psd, smooth_psd, gen_noise, Noise

MOD = "NoiseTrace"


def chunks(ev, n=20):
    return [ev[i:i + n] for i in range(0, len(ev), n)]


def vals_(rng, shp):
    k = rng.choice(["int", "float", "small", "sparse", "offset"])
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    if k == "int":
        return r.randint(-9, 10, shp).astype(float)
    if k == "sparse":
        return (r.rand(*shp) < .15) * r.randint(-5, 6, shp).astype(float)
    x = r.standard_normal(shp)
    return x * 1e-7 if k == "small" else x + 50. if k == "offset" else x


def psd(rng):
    n = rng.randint(1, 16) if rng.random() < .995 else rng.randint(60, 130)
    fs = rng.choice([1., 1., 1000., 625e3, .25, 7.])
    dims = rng.choice([1, 1, 2, 2, 3])
    vals = lambda r, s: counts(r, vals_(r, s))
    if dims == 1:
        x = vals(rng, (n,))
        st = [[x]]
    elif dims == 2:
        x = vals(rng, (rng.randint(1, 5), n))
        st = [list(x)]
    else:
        x = vals(rng, (rng.randint(1, 4), rng.randint(1, 3), n))
        st = [list(x[:, c]) for c in range(x.shape[1])]
    folded = rng.random() < .6
    kw = {}
    if fs != 1 or rng.random() < .5:
        kw["fs"] = fs
    if not folded or rng.random() < .5:
        kw["folded_over"] = folded
    res, exc = call(lambda: calc_psd(x, **kw))
    e = dict(op="psd", x=[[vec(r) for r in s] for s in st], fs=enc(fs), folded=folded, exc=exc, f=[], psd=[])
    if not exc:
        e["f"] = vec(res[0])
        p = np.asarray(res[1])
        e["psd"] = [vec(q) for q in p] if dims == 3 else [vec(p)] if p.ndim == 1 else [["notavector"]]
    return e


def symm(rng, n, pos=False):
    p = np.array([rng.choice([rng.random() * 10, rng.randint(0, 6)]) + (.1 if pos else 0) for _ in range(n)], float)
    for k in range(1, n // 2 + 1):
        p[n - k] = p[k]
    return p


def fold(rng):
    n = rng.randint(1, 25) if rng.random() < .99 else rng.randint(200, 1100)
    p = symm(rng, n) if rng.random() < .7 else np.array([rng.random() for _ in range(n)])
    if rng.random() < .2:
        p = counts(rng, np.round(p), 1.)
    fs = rng.choice([1., 625e3, 3.])
    res, exc = call(lambda: foldpsd(p.copy(), fs))
    return dict(op="fold", psd=vec(p), fs=enc(fs), exc=exc, f=[] if exc else vec(res[0]), out=[] if exc else vec(res[1]))


def smooth(rng):
    n = rng.randint(1, 18)
    p = symm(rng, n) * rng.choice([1, 1e-22])
    if rng.random() < .2:
        p = np.sort(p)[::-1].copy()
        for k in range(1, n // 2 + 1):
            p[n - k] = p[k]
    p = counts(rng, p)
    res, exc = call(lambda: smooth_psd(p.copy()))
    return dict(op="smooth", psd=vec(p), exc=exc, out=[] if exc else vec(res))


def c19(rep):
    OWN.append(1)
    rng, ev = rep.rng, []
    for _ in range(rep.n(600, 5000)):
        ev.append(psd(rng))
    for _ in range(rep.n(500, 4000)):
        ev.append(fold(rng))
        ev.append(smooth(rng))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev), "power spectral densities")


# ------------------------------------------------------------- noise object
def arr3(a, f):
    return [] if a is None else [f(x) for x in np.asarray(a)]


def snap(o):
    v2 = lambda a: arr3(a, vec)
    v3 = lambda a: arr3(a, lambda q: [vec(x) for x in q])
    c3 = lambda a: arr3(a, lambda q: [cvec(x) for x in q])
    return dict(traces=v3(o.traces), time=vec(o.time), freqs=vec(o.freqs), psd=v2(o.psd), real_psd=v2(o.real_psd),
                imag_psd=v2(o.imag_psd), corr=v3(o.corrcoeff), csd=c3(o.csd), real_csd=v3(o.real_csd), imag_csd=v3(o.imag_csd),
                real_csd_std=v3(o.real_csd_std), imag_csd_std=v3(o.imag_csd_std), uncorr=v2(o.uncorrnoise), corrnoise=v2(o.corrnoise))


class NRec:
    def __init__(self, rng, nch, bad=False):
        self.rng = rng
        n, m = rng.randint(4, 8), nch + rng.randint(1, 3)
        if rng.random() < .02:
            n, m = rng.randint(20, 40), rng.randint(8, 16)
        r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        raw = r.standard_normal((m, nch, n))
        if rng.random() < .6:
            raw += r.standard_normal((m, 1, n))          # common noise
        if rng.random() < .3:
            raw += 5 + np.arange(n) * .5
        raw *= rng.choice([1, 1, 1e-3])
        if rng.random() < .2 and nch > 1:
            raw[:, 1] *= 1e3
        if rng.random() < .2:
            raw = counts(rng, np.round(raw / np.abs(raw).max() * 3000), 1.)
        gain = rng.choice([1., 1., 2., -4., 1e3, .3])
        fs = rng.choice([1., 8., 625e3, 100.])
        time = None
        if rng.random() < .3:
            time = np.arange(n) / fs + rng.choice([0, 3 / fs, -.5 / fs])
        names = ["ch%d" % k for k in range(nch)]
        rng.shuffle(names)
        dims = 3
        arg = raw
        if bad:
            how = rng.choice(["one", "names", "names", "fewer"])
            if how == "one":
                dims, arg = 1, raw[0, 0]
            elif how == "names":
                names = names + ["x"]
            else:
                names = names[:-1]
        elif nch == 1 and rng.random() < .5:
            dims, arg = 2, raw[:, 0]
        kw = {}
        if gain != 1 or rng.random() < .5:
            kw["tracegain"] = gain
        if time is not None:
            kw["time"] = time
        kw["name"] = "scratch noise"
        self.o, exc = call(lambda: Noise(arg, fs, names, **kw))
        e = dict(op="nnew", raw=[[vec(c) for c in t] for t in raw], dims=dims, nnames=len(names), gain=enc(gain), fs=enc(fs),
                 time=[] if time is None else vec(time), exc=exc, chanok=True, o={})
        if not exc:
            e["chanok"] = self.o.chandict == {c: i for i, c in enumerate(names)} and list(self.o.channames) == names
            e["o"] = snap(self.o)
        self.ev, self.names = [e], names

    def save(self):
        with tempfile.TemporaryDirectory(prefix="noise.") as d:
            self.o.save(self.rng.choice([d, d + "/"]))
            fs_ = os.listdir(d)
            assert len(fs_) == 1
            with open(os.path.join(d, fs_[0]), "rb") as fh:
                new = pickle.load(fh)
        same = (new.fs, list(new.channames), new.name, new.tracegain, new.chandict)
        if same != (self.o.fs, list(self.o.channames), self.o.name, self.o.tracegain, self.o.chandict):
            raise AssertionError("identity not preserved")
        self.o = new

    def plot(self):
        o, rng = self.o, self.rng
        try:
          with contextlib.redirect_stdout(io.StringIO()):
            rng.choice([lambda: o.plot_psd(lgcoverlay=rng.random() < .5), lambda: o.plot_reim_psd(),
                        lambda: o.plot_corrcoeff(lgcsmooth=False), lambda: o.plot_csd(lgcreal=rng.random() < .5, whichcsd=["01"] if len(self.names) > 1 else ["00"]),
                        lambda: o.plot_decorrelatednoise(lgcoverlay=rng.random() < .5, lgccorrelated=rng.random() < .5, lgcsum=rng.random() < .5)])()
        finally:
            plt.close("all")

    def do(self, op):
        f = dict(npsd=lambda: self.o.calculate_psd(), ncorr=lambda: self.o.calculate_corrcoeff(), ncsd=lambda: self.o.calculate_csd(),
                 nuncorr=lambda: self.o.calculate_uncorr_noise(), nslope=lambda: self.o.remove_trace_slope(), nsave=self.save, nplot=self.plot)[op]
        _, exc = call(f)
        self.ev.append(dict(op=op, exc=exc, o=snap(self.o)))


def c20(rep):
    rep.model("NoiseObject", "NoiseObjectBroken.cfg", expect_violation=True)
    rng, tr = rep.rng, []
    hs = model_histories(rep, "NoiseObject", rep.n("NoiseObject.cfg", "NoiseObject4.cfg"))
    one = model_histories(rep, "NoiseObject", "NoiseObject1.cfg")
    rep.notes["histories_replayed"] = len(hs) + len(one) // 4
    for h in hs:
        r = NRec(rng, rng.choice([2, 2, 3]))
        for op in h:
            r.do(op)
        tr.append(r.ev)
    rng.shuffle(one)
    for h in one[:len(one) // 4]:
        r = NRec(rng, 1)
        for op in h:
            r.do(op)
        tr.append(r.ev)
    for _ in range(20):
        tr.append(NRec(rng, rng.choice([1, 2, 3]), bad=True).ev)
    for _ in range(rep.n(12, 150)):
        r = NRec(rng, rng.choice([1, 2, 3]))
        for _ in range(rng.randint(4, 8)):
            r.do(rng.choice(["npsd", "ncorr", "ncsd", "nuncorr", "nslope", "nsave", "nplot", "nplot"]))
        tr.append(r.ev)
    rep.validate(MOD, tr, "noise object")


# ---------------------------------------------------------- generated noise
def gen(rng, m, n=None):
    n = n or rng.randint(1, 9)
    p = symm(rng, n, True) * rng.choice([1, 1e-20, 4.])
    if rng.random() < .3 and n > 3:
        k = rng.randint(1, n // 2)
        p[k] = p[n - k] = 0
    arg = p
    how = rng.choice(["", "", "inf"])
    if how == "inf":
        arg = p.copy()
        arg[0] = np.inf
        p[0] = 0
    fs = rng.choice([1., 625e3, .5])
    keep = arg.copy()
    kw = dict(ntraces=m)
    if fs != 1 or rng.random() < .5:
        kw["fs"] = fs
    np.random.seed(rng.randint(0, 2 ** 31 - 1))
    if m == 1 and rng.random() < .5:
        kw.pop("ntraces")
    def both():
        a = gen_noise(arg, **kw)
        return a, gen_noise(arg, **kw)
    res, exc = call(both)
    e = dict(op="gen", psd=vec(p), exc=exc, m=m, shape=[], real=False, same=bool(np.array_equal(arg, keep)), stat=m > 5000,
             est=[], pseudo=[], mean=[], cross=[], calls=[])
    if exc:
        return e
    x, y = res
    e["shape"] = shape(x)
    e["real"] = bool(np.isrealobj(x) and np.all(np.isfinite(x)))
    if m > 5000 and e["shape"] == [m, n]:
        X, Y = np.fft.fft(x) / np.sqrt(fs * n), np.fft.fft(y) / np.sqrt(fs * n)
        e.update(est=vec(np.mean(np.abs(X) ** 2, 0)), pseudo=cvec(np.mean(X ** 2, 0)), mean=cvec(np.mean(X, 0)),
                 cross=cvec(np.mean(np.conj(X[:-1]) * X[1:], 0)), calls=cvec(np.mean(np.conj(X) * Y, 0)))
    return e


def c21(rep):
    rng, ev = rep.rng, []
    for _ in range(rep.n(60, 400)):
        ev.append(gen(rng, rng.randint(1, 5)))
    for n in range(1, 10):
        for _ in range(rep.n(3, 12)):
            ev.append(gen(rng, 40000, n))
    rep.validate(MOD, chunks(ev, 5), "generated noise")


CHECKS = dict(C19=c19, C20=c20, C21=c21)
