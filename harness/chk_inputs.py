"""C08: the caller's arrays and earlier results are left alone."""
import contextlib, io, os, time
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import qetpy as qp
import qetpy.utils._utils as U
from qetpy.core import _of_nsmb as N
import chk_of, chk_nsmb, chk_cut, chk_utils, chk_noise, chk_iv, chk_didv, chk_sim, chk_nonlin
from chk_of import model_histories
from chk_didv import quiet
from spy import Spy

MOD = "InputsTrace"


class Small:
    """stands in for a Report while another check's generators run under the interposer"""

    def __init__(self, rng, share):
        self.rng, self.share, self.notes, self.quick = rng, share, {}, True

    def n(self, q, t):
        if isinstance(q, str):
            return q
        if isinstance(q, (list, tuple)):
            return q[:2]
        return q if t < 2 * q else max(2, int(q * self.share))     # t < 2q: a bound, not a count

    def model(self, *a, **k):
        return TLCResult('<<"HIST", "[]">>', 0)

    def validate(self, *a, **k):
        pass


def sweep(spy, rep):
    """every other check's generators, recorded"""
    rng = rep.rng
    plan = [(m, k) for m in (chk_of, chk_nsmb, chk_cut, chk_utils, chk_noise, chk_iv, chk_didv, chk_sim, chk_nonlin) for k in sorted(m.CHECKS)]
    for m, k in plan:
        t0 = time.time()
        share = rep.n(.1, .5)
        small = Small(rng, share)
        old = getattr(m, "model_histories", None)
        if old is not None:
            m.model_histories = lambda r, mod, cfg, **kw: sampled(rep, mod, cfg)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if k == "C21":
                    for _ in range(rep.n(20, 100)):
                        chk_noise.gen(rng, rng.randint(1, 5))
                else:
                    m.CHECKS[k](small)
        finally:
            if old is not None:
                m.model_histories = old
            plt.close("all")
        spy.end()
        rep.notes.setdefault("sweep_seconds", {})[k] = round(time.time() - t0, 1)


CACHE = {}


def sampled(rep, mod, cfg):
    if (mod, cfg) not in CACHE:
        CACHE[mod, cfg] = model_histories(rep, mod, cfg)
    hs = CACHE[mod, cfg]
    return rep.rng.sample(hs, min(len(hs), rep.n(6, 60)))


# ------------------------------------------------------------- shared arrays
def layout(rng, a):
    """the same values in another memory layout"""
    k = rng.choice(["c", "c", "c", "strided", "slice", "fortran"])
    a = np.asarray(a)
    if k == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == "slice":
        b = np.full(a.shape[:-1] + (a.shape[-1] + 6,), 7, a.dtype)
        b[..., 3:-3] = a
        return b[..., 3:-3]
    if k == "fortran":
        return np.asfortranarray(a)
    return np.array(a)


class Env:
    """one caller's arrays, shared by all calls of a history"""

    def __init__(self, rng):
        self.rng = rng
        r = self.r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        L = lambda a: layout(rng, a)
        self.fs, self.sg, per, K = 4e5, 1e4, 40, 3
        n = self.n = per * K
        t = np.arange(n) / self.fs
        self.t = L(t)
        s = np.where(t >= t[n // 2], np.exp(-(t - t[n // 2]) / 6e-5) - np.exp(-(t - t[n // 2]) / 1.5e-5), 0.)
        self.template = L(s / s.max())
        f = np.fft.fftfreq(n, 1 / self.fs)
        p = 1e-22 * (1 + 1 / (1 + np.abs(f) / 2e4))
        self.psd = L(p)
        self.bad = L(np.where(r.rand(n) < .1, rng.choice([0., -1.]) * p, p))
        noise = qp.gen_noise(p, fs=self.fs, ntraces=36)
        self.traces = L(noise[:30] + 1e-7 * r.rand(30, 1))
        self.signal = L(2e-6 * self.template + noise[30])
        self.two = L(noise[:24].reshape(12, 2, n))
        self.base = L(1e-8 * r.randn(30, 1))
        self.pos = L(1e-6 + np.abs(noise[:5]))
        self.freqs = L(np.abs(f[: n // 2]))
        p3 = chk_didv.params(rng, 2)
        self.p3 = p3
        y = chk_didv.wave(per, K, self.fs, self.sg, 2e-6, p3, 0.)
        self.raw = L(np.asarray(y).ravel()[None, :n] + 1e-10 * r.randn(12, n)) if np.size(y) >= n else L(noise[:12])
        self.priors = L(np.array([p3[k] for k in chk_didv.TWO] + [0.]))
        sig = .1 * np.abs(self.priors) + 1e-9
        sig[0] = self.priors[0] * .01
        c = np.diag(sig ** 2)
        c[-1, -1] = 1e-12
        self.pcov = L(c)
        self.sc = L(r.randn(40))
        self.sc2 = L(r.randn(40))
        self.sm = np.array([n + 0., 1., 2.])
        self.nb = chk_nsmb.problem(rng, 2, 9)
        for k in ("s", "b", "psd"):
            self.nb[k] = L(self.nb[k])
        self.win, self.win2 = L(np.arange(-2, self.nb["n"] - 3)[None, :]), L(np.arange(2, 4))
        self.pol, self.spol = L(np.array([rng.choice([-1., 0., 1.]) for _ in range(self.nb["m"])])), L(np.array([1.]))
        self.mat3 = L(r.randn(3, 40))
        self.b3 = L(np.diag(1e-12 * (1 + r.rand(3))))
        vb = np.linspace(6e-6, 3e-7, 10).reshape(1, 1, 10)
        rt = np.full(10, .3)
        rt[5:] = np.linspace(.25, .03, 5)
        di = vb / (rt + .01) + 2e-6
        self.di, self.die, self.vb, self.vbe = L(di), L(.01 * np.abs(di)), L(vb), L(1e-3 * np.abs(vb))
        self.rl = L(np.full((1, 1, 10), .01))
        self.rle = L(np.full((1, 1, 10), .0005))
        self.guess = rng.choice([list, tuple, np.array])([2e-6, 1.5e-5, 6e-5, n / 2 / self.fs])
        self.bounds = (L(np.array([0., 1e-6, 1e-6, 0.])), L(np.array([1., 1e-3, 1e-3, 1e-3])))
        self.norm, self.scin = rng.choice([list, np.array])([0, 1, 2, 3]), rng.choice([list, np.array])([7, 8, 9])
        self.obj = {}

    def get(self, key, make):
        """an object of the history, made at first use and sometimes anew"""
        if key not in self.obj or self.rng.random() < .25:
            o, exc = quiet(make)
            if exc:
                return None
            self.obj[key] = o
        return self.obj[key]


def f_of(e):
    rng = e.rng
    o = e.get("of", lambda: qp.OptimumFilter(e.signal, e.template, rng.choice([e.psd, e.bad]), e.fs,
                                             coupling=rng.choice(["AC", "DC"]), integralnorm=rng.random() < .3))
    if o is None:
        return
    yield lambda: o.ofamp_nodelay()
    yield lambda: o.ofamp_withdelay(nconstrain=rng.choice([None, 5, 40]), lgcoutsidewindow=rng.random() < .3)
    yield lambda: o.ofamp_pileup_iterative(1e-6, 0., nconstrain=20)
    yield lambda: o.ofamp_pileup_stationary()
    yield lambda: o.update_signal(e.traces[rng.randrange(30)])
    yield lambda: o.ofamp_baseline()
    yield lambda: o.chi2_nopulse()
    yield lambda: o.chi2_lowfreq(1e-6, 0., fcutoff=3e4)
    yield lambda: o.energy_resolution()
    yield lambda: o.time_resolution(1e-6)


def f_offunc(e):
    rng = e.rng
    p = rng.choice([e.psd, e.bad])
    x = rng.choice([e.signal, e.traces])
    c = rng.choice(["AC", "DC"])
    yield lambda: qp.ofamp(x, e.template, p, e.fs, withdelay=rng.random() < .7, coupling=c, lgcsigma=rng.random() < .5,
                           nconstrain=rng.choice([None, 10]), integralnorm=rng.random() < .3)
    yield lambda: qp.ofamp_pileup(e.signal, e.template, p, e.fs, coupling=c, nconstrain1=20, nconstrain2=rng.choice([None, 20]))
    yield lambda: qp.ofamp_pileup_stationary(e.signal, e.template, p, e.fs, coupling=c)
    yield lambda: qp.chi2lowfreq(e.signal, e.template, 1e-6, 2e-5, p, e.fs, fcutoff=2e4, coupling=c)
    yield lambda: qp.chi2_nopulse(x, p, e.fs, coupling=c)
    yield lambda: qp.ofamp(e.signal, e.template[:-1], p, e.fs)
    yield lambda: qp.chi2lowfreq(e.signal, e.template[:-3], 1e-6, 2e-5, p, e.fs)


def f_cut(e):
    rng = e.rng
    yield lambda: qp.cut.removeoutliers(e.sc)
    yield lambda: qp.cut.iterstat(e.sc, cut=2)
    yield lambda: qp.cut.itercov(e.sc, e.sc2)
    yield lambda: qp.cut.itercov(e.mat3, nsigma=rng.choice([2, 2.75]))
    yield lambda: qp.cut.itercov(e.sc, e.sc2[:-1])
    yield lambda: qp.cut._cut.symmetrizedist(e.sc)
    yield lambda: qp.cut.autocuts(e.traces, fs=e.fs, is_didv=rng.random() < .4, sgfreq=e.sg, symmetrizeflag=rng.random() < .3,
                                  outlieralgo=rng.choice(["removeoutliers", "iterstat", "iterstat", "none"]))
    yield lambda: qp.cut.get_muon_cut(e.traces, thresh_pct=.9, nsatbins=5)
    for f in ("pileupcut", "slopecut", "baselinecut", "chi2cut"):
        g = getattr(qp.cut._cut, f, None)
        if g is not None:
            yield lambda g=g: g(e.traces, fs=e.fs, outlieralgo=rng.choice(["removeoutliers", "iterstat"]))


def f_psd(e):
    rng = e.rng
    yield lambda: qp.calc_psd(rng.choice([e.traces, e.signal, e.two]), fs=e.fs, folded_over=rng.random() < .5)
    yield lambda: qp.foldpsd(e.psd, e.fs)
    yield lambda: qp.smooth_psd(rng.choice([e.psd, e.bad]))
    yield lambda: qp.gen_noise(e.psd, fs=e.fs, ntraces=2)


def f_noise(e):
    o = e.get("noise", lambda: qp.Noise(e.two, e.fs, ["a", "b"]))
    if o is None:
        return
    for k in ("remove_trace_slope", "calculate_psd", "calculate_corrcoeff", "calculate_csd", "calculate_uncorr_noise"):
        yield getattr(o, k)


def f_nsmb(e):
    rng, q = e.rng, e.nb
    key = e.get("nsmb", lambda: N.of_nsmb_setup(q["s"], q["b"], q["psd"], q["fs"]))
    if key is None:
        return
    psddnu, phi, Pfs, P, sf, st, iB, B, ns, nb, bits, lf = key
    x = np.asarray(q["s"]) * 2. + .1 * e.r.randn(q["n"])
    win = e.win
    iP, exc = quiet(lambda: N.of_nsmb_getiP(P))
    yield lambda: N.of_nsmb_getPt(Pfs, P, combind=1, bindelay=2, bitcomb=bits)
    yield lambda: N.of_mb(x, phi, sf.T, st, iB, B, psddnu.T, q["fs"], ns, nb, lfindex=3)
    if not exc:
        yield lambda: N.of_nsmb(x, phi, sf.T, st, iP, psddnu.T, q["fs"], [win], ns, nb, bits, lfindex=3)
    kw = rng.choice([{}, dict(bkgpolarityconstraint=e.pol), dict(bkgpolarityconstraint=e.pol, sigpolarityconstraint=e.spol)])
    yield lambda: N.of_nsmb_con(x, phi, Pfs, P, sf.T, st, psddnu.T, q["fs"], [win, e.win2], ns, nb, bits, 3, **kw)
    yield lambda: N.of_mb(x, phi, sf.T, st, iB, B, psddnu.T, q["fs"], ns, nb, lfindex=3, **{k: v for k, v in kw.items() if k[0] == "b"})
    yield lambda: N.of_nsmb_ffttemplate(np.asarray(q["s"])[:, None], q["b"])
    yield lambda: N.maketemplate_ttlfit_nsmb(q["s"], q["fs"], q["fs"] / 4.)


def f_utils(e):
    rng = e.rng
    yield lambda: U.shift(e.signal, rng.randint(-150, 150))
    yield lambda: U.resample_data(e.traces, e.fs, 7.3e3)
    yield lambda: U.make_template(e.t, 1e-5, 4e-5, offset=3)
    yield lambda: U.make_decreasing(e.sc)
    yield lambda: U.make_decreasing(e.sc, x=e.sc2)
    yield lambda: U.calc_offset(e.traces, fs=e.fs, sgfreq=e.sg, is_didv=rng.random() < .5)
    yield lambda: U.slope(e.t, e.traces, removemeans=rng.random() < .5)
    yield lambda: U.lowpassfilter(e.traces, cut_off_freq=5e4, fs=e.fs)
    yield lambda: U.align_traces(e.traces, lgcjustshifts=rng.random() < .5, n_cut=40, cut_off_freq=5e4, fs=e.fs)


def f_energy(e):
    rng = e.rng
    yield lambda: U.powertrace_simple(e.traces, 1e-7, 2e-5, .01, .005)
    yield lambda: U.energy_absorbed(rng.choice([e.traces, e.signal]), 1e-7, 2e-5, .01, .005, fs=e.fs, baseline=rng.choice([None, 1e-8, e.base]))
    yield lambda: U.energy_absorbed(e.traces, 1e-7, 2e-5, .01, .005, time=e.t, indbasepre=30, indbasepost=rng.choice([None, 100]))
    yield lambda: U.get_offset_from_muon(e.pos, 2e-5, .3, .01, nbaseline=40, lgcfullrtn=rng.random() < .5)
    yield lambda: U.estimate_g(2e-12, .06, .02, p0_err=1e-13, cov=e.b3)


def f_fill(e):
    # on a scratch copy of the caller's, which he owns just the same
    yield lambda: U.fill_negatives(e.bad)
    yield lambda: U.fill_negatives(e.sm)


def f_iv(e):
    rng = e.rng
    o = e.get("iv", lambda: qp.IV(e.di, e.die, e.vb, e.vbe, e.rl, e.rle, ["a"], normalinds=rng.choice([None, e.norm])))
    if o is not None:
        yield o.calc_iv
    b = e.get("ibis", lambda: qp.IBIS(e.di, e.die, np.asarray(e.vb) / .005, np.asarray(e.vbe) / .005, .005, 1e-4, ["a"],
                                      normalinds=e.norm, scinds=e.scin))
    if b is not None:
        yield getattr(b, "analyze", getattr(b, "calc_iv", lambda: None))


def f_didv(e):
    rng = e.rng
    a = (e.raw, e.fs, e.sg, 2e-6, e.p3["rsh"])
    o = e.get("didv", lambda: qp.DIDV(*a, r0=e.p3["r0"], r0_err=1e-3, rp=e.p3["rp"], add180phase=rng.random() < .3, autoresample=rng.random() < .3))
    if o is not None:
        yield o.processtraces
        yield lambda: o.dofit(rng.choice([1, 2, 2]))
        yield lambda: o.fitresult(2)
        yield lambda: o.plot_full_trace() if rng.random() < .2 else None
    q = e.get("didvp", lambda: qp.DIDVPriors(*a))
    if q is not None:
        yield q.processtraces
        yield lambda: q.dofit(2, e.priors, e.pcov)
        yield lambda: q.fitresult(2)
    yield lambda: qp.complexadmittance(e.freqs, **{k: e.p3.get(k) for k in chk_didv.NAMES})
    yield lambda: qp.squarewaveresponse(e.t, 1e-6, e.sg, **{k: e.p3.get(k) for k in chk_didv.NAMES})
    yield lambda: qp.didvinitfromdata(e.sc[:20], e.sc2[:20] + 1j, e.sc[20:] + 1j, 0., 1e-9, e.fs, e.sg, 1e-6, .005)


def f_sim(e):
    rng = e.rng
    o = e.get("sim", lambda: qp.sim.TESnoise(freqs=e.freqs))
    if o is None:
        return
    for k in rng.sample([q for q in dir(o) if q[:2] in ("s_", "dI")], 4):
        g = getattr(o, k, None)
        if callable(g):
            yield g
    yield lambda: qp.sim.energy_res_estimate(e.freqs, 2e-5, e.psd[: len(e.freqs)], .5)


def f_nonlin(e):
    rng = e.rng
    o = e.get("nonlin", lambda: qp.OFnonlin(e.psd, e.fs, template=e.template))
    if o is not None:
        x = e.signal
        yield lambda: o.fit_falltimes(x, npolefit=2, lgcfullrtn=rng.random() < .5)
        yield lambda: o.fit_falltimes(x, npolefit=1, taurise=1.5e-5, lgcfullrtn=rng.random() < .5, lgcplot=rng.random() < .1)
        yield lambda: o.fit_falltimes(x, npolefit=2, guess=e.guess, bounds=rng.choice([None, e.bounds]))
        yield lambda: o.fit_falltimes(x, npolefit=3, lgcfullrtn=True)
        yield lambda: o.twopole(*e.guess)
        yield lambda: o.twopoletime(*e.guess)
    m = e.get("muon", lambda: qp.MuonTailFit(e.psd, e.fs))
    if m is not None:
        yield lambda: m.fitmuontail(e.signal, lgcfullrtn=True)


FAMILIES = dict(of=f_of, offunc=f_offunc, cut=f_cut, psd=f_psd, noise=f_noise, nsmb=f_nsmb, utils=f_utils, energy=f_energy,
                fill=f_fill, iv=f_iv, didv=f_didv, sim=f_sim, nonlin=f_nonlin)


def replay(spy, rng, h, keep, errs):
    e = Env(rng)
    spy.end()
    for fam in h:
        todo = list(FAMILIES[fam](e))
        pick = sorted(rng.sample(range(len(todo)), min(len(todo), keep)))
        for i in pick:
            _, exc = quiet(todo[i])
            errs[fam + "/%d" % i] = errs.get(fam + "/%d" % i, 0) + (exc != "")
            if exc:
                errs[fam + "/%d!" % i] = exc
    plt.close("all")
    spy.end()


def c08(rep):
    rep.model("InputsMC", "InputsMCBrokenIn.cfg", expect_violation=True)
    rep.model("InputsMC", "InputsMCBrokenOut.cfg", expect_violation=True)
    hs = model_histories(rep, "InputsMC", rep.n("InputsMC.cfg", "InputsMC3.cfg"))
    rep.rng.shuffle(hs)
    rep.notes["histories_replayed"] = len(hs)
    spy, errs = Spy(), {}
    spy.install()
    try:
        for h in hs:
            replay(spy, rep.rng, h, rep.n(4, 3), errs)
        rep.notes["calls_in_histories"] = sum(len(t) for t in spy.traces) // 2
        rep.notes["raised"] = {k: v for k, v in errs.items() if not k.endswith("!") and v}
        sweep(spy, rep)
    finally:
        spy.remove()
    rep.notes["routines"] = dict(sorted(spy.total.items()))
    rep.validate(MOD, spy.traces, "ownership of arrays", chunk=2000)
    if os.environ.get("C08_DEBUG"):
        print({k: v for k, v in errs.items() if k.endswith("!")})


CHECKS = dict(C08=c08)
