"""Recorder for optimum-filter histories on the real code."""
import random
import numpy as np
from common import *
import qetpy as qp


NAN = NONE


def gen_cfg(rng, nmin=2, nmax=10):
    while True:
        n = rng.randint(nmin, nmax)
        kind = rng.choice(["int", "pulse", "real"])
        if kind == "int":
            tmpl = np.array([rng.randint(-3, 4) for _ in range(n)], float)
        elif kind == "pulse":
            tmpl = np.array([0.0] * (n // 2) + [2.0 ** -k for k in range(n - n // 2)])
        else:
            tmpl = np.array([round(rng.gauss(0, 1), 3) for _ in range(n)])
        P = np.zeros(n)
        style = rng.choice(["white", "rand", "red"])
        for k in range(n // 2 + 1):
            v = {"white": 2.0, "rand": rng.uniform(0.3, 4), "red": 4.0 / (1 + k)}[style]
            v = float(np.round(v * 64) / 64) if rng.random() < .7 else v
            P[k] = v
            P[-k] = v
        coupling = rng.choice(["AC", "AC", "DC", "DC"])
        fs = rng.choice([1.0, 2.0, 625e3, 1e3, 3.0, 100])
        integ = rng.random() < .2
        if integ and abs(tmpl.sum()) < .3:
            continue
        unit = rng.choice([1.0, 1.0, 2.0 ** -20, 2.0 ** 10])
        psd = P * unit ** 2 * rng.choice([1.0, 2.0 ** -10])
        # well-conditioned template: non-negligible weighted norm in every coupling
        S = np.abs(np.fft.fft(tmpl)) ** 2
        w = S / P
        if w[1:].sum() < .3 or np.any(np.array([np.dot(tmpl, np.roll(tmpl, d)) for d in range(1, n)]) > .999999 * np.dot(tmpl, tmpl)):
            continue
        return dict(n=n, tmpl=tmpl, psd=psd, fs=fs, coupling=coupling, integralnorm=integ, unit=unit)


def gen_sig(rng, cfg):
    n, t, u = cfg["n"], cfg["tmpl"], cfg["unit"]
    kind = rng.choice(["noise", "pulse", "pile", "neg", "zero", "base", "int", "exact"])
    x = np.zeros(n)
    if kind in ("noise", "pulse", "pile", "neg", "base"):
        x += np.array([round(rng.gauss(0, .3), 4) for _ in range(n)])
    if kind in ("pulse", "pile", "base", "exact"):
        x += rng.choice([1, 2, 5, .5]) * np.roll(t, rng.randint(0, n - 1))
    if kind == "pile":
        x += rng.choice([1, 2, -1]) * np.roll(t, rng.randint(0, n - 1))
    if kind == "neg":
        x -= 2 * np.roll(t, rng.randint(0, n - 1))
    if kind == "base":
        x += rng.choice([1, -3, 20])
    if kind == "int":
        x += np.array([rng.randint(-4, 4) for _ in range(n)])
    return counts(rng, x * u)


def gen_fit_args(rng, n):
    ncon = rng.choice([None, None, 1, 2, 3, n - 1, n, n + 3, rng.randint(1, n)])
    if ncon is not None and ncon < 1:
        ncon = 1
    if rng.random() < .03:
        ncon = rng.choice([0, -1, -5])
    lo, hi = -(n // 2), n - 1 - n // 2
    wc = rng.choice([0, 0, rng.randint(lo, hi), lo, hi])
    if rng.random() < .03:
        wc = rng.choice([lo - 1, hi + 1])
    pdc = rng.choice([0, 0, 1, -1])
    if rng.random() < .02:
        pdc = rng.choice([2, -2])
    return dict(nconstrain=ncon, lgcoutsidewindow=rng.random() < .4,
                pulse_direction_constraint=pdc, windowcenter=wc)


def argrec(a, interp=False):
    return dict(ncon=-1 if a.get("nconstrain") is None else (a["nconstrain"] if a["nconstrain"] != -1 else -2),
                outside=bool(a.get("lgcoutsidewindow", False)),
                pdc=a.get("pulse_direction_constraint", 0), wc=a.get("windowcenter", 0), interp=bool(interp))


def triple(res, exc, names=("amp", "t0", "chi2")):
    d = {"exc": exc}
    if res is not None and len(res) != len(names):
        d["exc"] = exc = "wrong number of results"
    for i, k in enumerate(names):
        d[k] = sc(res[i]) if not exc else NAN
    return d


class OFRec:
    """One real OptimumFilter and the record of what was called on it."""

    def __init__(self, cfg, x):
        self.cfg, self.ev = cfg, []
        self.x = x.copy()
        self.arr = [x.copy(), cfg["tmpl"].copy(), cfg["psd"].copy()]
        self.keep = [a.copy() for a in self.arr]
        self.obj, exc = call(lambda: qp.OptimumFilter(self.arr[0], self.arr[1], self.arr[2], cfg["fs"],
                                                      coupling=cfg["coupling"], integralnorm=cfg["integralnorm"]))
        self.ev.append(newev(cfg, x, exc))

    def inputs(self):
        same = all(np.array_equal(a, b) for a, b in zip(self.arr, self.keep))
        self.ev.append(dict(op="inputs", same=bool(same)))

    def update(self, x):
        self.arr.append(x.copy())
        self.keep.append(x.copy())
        _, exc = call(lambda: self.obj.update_signal(self.arr[-1]))
        self.ev.append(dict(op="update", sig=vec(x), exc=exc))

    def withdelay(self, a, interp=False):
        res, exc = call(lambda: self.obj.ofamp_withdelay(interpolate_t0=interp, **a))
        self.ev.append(dict(op="withdelay", **argrec(a, interp), **triple(res, exc)))
        return res

    def baseline(self, a, interp=False):
        res, exc = call(lambda: self.obj.ofamp_baseline(interpolate_t0=interp, **a))
        self.ev.append(dict(op="baseline", **argrec(a, interp), **triple(res, exc)))
        return res

    def nodelay(self, wc=0):
        res, exc = call(lambda: self.obj.ofamp_nodelay(windowcenter=wc))
        self.ev.append(dict(op="nodelay", wc=int(wc), **triple(res, exc, ("amp", "chi2"))))

    def piter(self, a1, d1, a, interp=False):
        t1 = d1 / self.cfg["fs"]
        res, exc = call(lambda: self.obj.ofamp_pileup_iterative(a1, t1, interpolate_t0=interp, **a))
        self.ev.append(dict(op="piter", a1=enc(a1), d1=int(d1), **argrec(a, interp), **triple(res, exc)))

    def pstat(self, a):
        a = {k: v for k, v in a.items() if k != "pulse_direction_constraint"}
        res, exc = call(lambda: self.obj.ofamp_pileup_stationary(**a))
        self.ev.append(dict(op="pstat", **argrec(a), **triple(res, exc, ("a1", "a2", "t2", "chi2"))))

    def chi0(self):
        res, exc = call(lambda: self.obj.chi2_nopulse())
        self.ev.append(dict(op="chi0", exc=exc, chi2=sc(res) if not exc else NAN))

    def lowf(self, amp, t0, fcut):
        res, exc = call(lambda: self.obj.chi2_lowfreq(amp, t0, fcutoff=fcut))
        self.ev.append(dict(op="lowf", amp=enc(amp), t0=enc(t0), fcut=enc(fcut), exc=exc,
                            chi2=sc(res) if not exc else NAN))

    def eres(self):
        res, exc = call(lambda: self.obj.energy_resolution())
        self.ev.append(dict(op="eres", exc=exc, val=sc(res) if not exc else NAN))

    def tres(self, amp):
        res, exc = call(lambda: self.obj.time_resolution(amp))
        self.ev.append(dict(op="tres", amp=enc(amp), exc=exc, val=sc(res) if not exc else NAN))


def newev(cfg, x, exc=""):
    return dict(op="new", tmpl=vec(cfg["tmpl"]), psd=vec(cfg["psd"]), fs=enc(cfg["fs"]),
                coupling=cfg["coupling"], integralnorm=cfg["integralnorm"],
                sig=vec(x) if x is not None else [], exc=exc)


def rand_amp(rng, cfg):
    u = cfg["unit"] if not cfg["integralnorm"] else cfg["unit"] * float(cfg["tmpl"].sum()) / cfg["fs"]
    return rng.choice([1, 2.5, -1, .125, 3]) * u
