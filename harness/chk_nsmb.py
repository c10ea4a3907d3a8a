"""C09-C11: multi-template optimum filters and their background templates."""
import contextlib, io
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import qetpy as qp
from qetpy.core import _of_nsmb as N

MOD = "NsmbTrace"


def ints(v):
    return [int(k) for k in np.ravel(v)]


def mat3(a):
    return [[vec(q) for q in p] for p in np.asarray(a)]


def pulse(n, t0, tr, tf):
    t = np.arange(n, dtype=float) - t0
    y = np.where(t >= 0, np.exp(-t / tf) - np.exp(-t / tr), 0.)
    return y / np.max(np.abs(y)) if np.any(y) else y


def problem(rng, mmax=3, nmax=12, nmin=5):
    """random templates and PSD with a well-conditioned joint fit at every delay"""
    while True:
        n, m = rng.randint(nmin, nmax), rng.randint(1, mmax)
        n = max(n, m + 3)
        r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        kind = rng.choice(["rand", "pulse", "pulse"])
        s = r.randn(n) if kind == "rand" else pulse(n, n // 2, .5 + r.rand(), 1 + 3 * r.rand()) + .05 * r.randn(n)
        cols = []
        for j in range(m):
            k = rng.choice(["rand", "dc", "slope", "pulse", "near"])
            if k == "dc":
                c = np.ones(n)
            elif k == "slope":
                c = np.arange(n) / n
            elif k == "pulse":
                c = np.roll(pulse(n, n // 2, .5, 1 + 2 * r.rand()), rng.randint(-n // 2, n // 2))
            elif k == "near" and cols:
                c = cols[-1] + .5 * r.randn(n)
            else:
                c = r.randn(n)
            cols.append(c)
        psd = np.array([rng.choice([1., .3, 2., 7.]) * (.5 + r.rand()) for _ in range(n)])
        for k in range(1, n // 2 + 1):
            psd[n - k] = psd[k]
        psd *= rng.choice([1., 1e-20, 3e-22])
        fs = rng.choice([1., 625e3, 8.])
        psd[0] = rng.choice([psd[0], 0., np.inf, psd[0]])
        p = psd.copy()
        p[0] = p[1]
        w = 1 / (n * fs * p)
        F = lambda v: np.fft.fft(v)
        ok = True
        for d in range(n):
            M = [np.roll(s, d)] + cols
            G = np.array([[np.real(np.sum(np.conj(F(u)) * F(v) * w)) for v in M] for u in M])
            sc_ = 1 / np.sqrt(np.diag(G))
            if np.linalg.cond(G * np.outer(sc_, sc_)) > 1e4 or np.linalg.cond(G) > 1e6:
                ok = False
                break
        if ok:
            return dict(n=n, m=m, s=s, b=np.array(cols).T, psd=psd, fs=fs)


class Rec:
    def __init__(self, p):
        self.p = p
        arg = {k: v.copy() for k, v in p.items() if isinstance(v, np.ndarray)}
        res, exc = call(lambda: N.of_nsmb_setup(arg["s"], arg["b"], arg["psd"], p["fs"]))
        e = dict(op="nsetup", s=vec(p["s"]), b=mat(p["b"].T), psd=vec(p["psd"]), fs=enc(p["fs"]), exc=exc)
        self.ok = not exc
        if self.ok:
            (self.psddnu, self.phi, self.Pfs, self.P, self.sf, self.st, self.iB, self.B, self.ns, self.nb, self.bits, lf) = res
            e.update(psddnu=vec(self.psddnu), phi=cmat(self.phi), Pfs=mat(self.Pfs), P=mat3(self.P), sf=cmat(self.sf.T), st=mat(self.st.T),
                     iB=mat(self.iB), B=mat(self.B), ns=int(self.ns), nb=int(self.nb), bits=[list(map(int, b)) for b in self.bits], lf=int(lf))
        self.ev = [e]
        self.iP = None

    def ip(self):
        self.iP, exc = call(lambda: N.of_nsmb_getiP(self.P))
        self.ev.append(dict(op="nip", exc=exc, iP=[] if exc else mat3(self.iP)))

    def pt(self, rng):
        m = self.p["m"] + 1
        k = rng.randint(1, 2 ** m - 1)
        mask = [int(b) for b in self.bits[k]]
        d = rng.randrange(self.p["n"])
        f = rng.choice([lambda: N.of_nsmb_getPt(self.Pfs, self.P, combind=k, bindelay=d, bitcomb=self.bits),
                        lambda: N.of_nsmb_getPt(self.Pfs, self.P, bindelay=d, bitmask=np.array(mask))])
        res, exc = call(f)
        self.ev.append(dict(op="npt", mask=mask, delay=d, exc=exc, Pt=[] if exc else mat(res[0]), iPt=[] if exc else mat(res[1])))

    def signal(self, rng, con=None):
        p = self.p
        n, m = p["n"], p["m"]
        r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        sc_ = rng.choice([1., 1e-6])
        a = r.randn(m + 1) * 3
        x = a[0] * np.roll(p["s"], rng.choice([0, 0, n // 2, rng.randrange(n)])) + p["b"] @ a[1:]
        return sc_ * (x + rng.choice([0, .1, 1, 4]) * r.randn(n))

    def window(self, rng):
        n = self.p["n"]
        k = rng.choice(["all", "all", "some", "one", "neg", "big", "edge"])
        if k == "all":
            w = list(range(n))
        elif k == "one":
            w = [rng.randrange(n)]
        elif k == "neg":
            w = list(range(-rng.randint(1, n // 2), rng.randint(1, n // 2)))
        elif k == "big":
            w = list(range(n - 2, n + rng.randint(1, n - 2)))
        elif k == "edge":
            w = rng.choice([[0], [n - 1], [0, n - 1], [n // 2], [-1, 0, 1]])
        else:
            w = sorted(rng.sample(range(n), rng.randint(1, n)))
        return np.array(w)[None, :]

    def lf(self, rng):
        return rng.choice([500, rng.randint(1, self.p["n"]), rng.randint(1, self.p["n"])])

    def fit(self, rng):
        x, win, lf = self.signal(rng), self.window(rng), self.lf(rng)
        if self.iP is None:
            self.ip()
        keep = win.copy()
        res, exc = call(lambda: N.of_nsmb(x.copy(), self.phi, self.sf.T, self.st, self.iP, self.psddnu.T, self.p["fs"], [win],
                                          self.ns, self.nb, self.bits, lf), own=True)
        e = dict(op="nfit", x=vec(x), win=ints(keep), lf=lf, exc=exc)
        if not exc:
            e.update(amp=vec(res[0]), t=one(res[1]), chi2=one(res[2]), chi2lf=one(res[3]), resid=vec(res[4]))
        self.ev.append(e)

    def chain(self, rng):
        """a signal, a delay and constraints for which dropping amplitudes pushes a further one to its excluded side"""
        p = self.p
        n, m = p["n"], p["m"]
        psd = p["psd"].copy()
        psd[0] = np.inf if psd[0] == 0 else psd[0]
        w = 1 / (n * p["fs"] * psd)
        r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        for _ in range(60):
            d = r.randint(n)
            M = np.fft.fft(np.vstack([np.roll(p["s"], d), p["b"].T]), axis=1)
            G = np.real(np.conj(M) @ (M * w).T)
            if np.linalg.cond(G) > 1e7:
                continue
            a = r.randn(m + 1) / np.sqrt(np.diag(G))
            q = G @ a
            for _ in range(20):
                con = r.choice([-1, 1], m + 1)
                bad = con * a < 0
                if 0 < np.sum(bad) <= m - 1:
                    k = np.nonzero(~bad)[0]
                    if np.any(con[k] * np.linalg.solve(G[np.ix_(k, k)], q[k]) < 0):
                        x = a[0] * np.roll(p["s"], d) + p["b"] @ a[1:]
                        return x + .02 * np.max(np.abs(x)) * r.randn(n), int(d), [int(c) for c in con]

    def con(self, rng, chained=False):
        p = self.p
        n, m = p["n"], p["m"]
        x, win, lf = self.signal(rng), self.window(rng), self.lf(rng)
        how = rng.choice(["none", "bkg", "both", "both", "sig"])
        sig, bkg = [rng.choice([-1, 0, 1])], [rng.choice([-1, 0, 1]) for _ in range(m)]
        ch = self.chain(rng) if chained and m > 1 else None
        if ch:
            x, d, c = ch
            win, how, sig, bkg = np.array([[d]]), "both", c[:1], c[1:]
        kw = {}
        if how in ("bkg", "both"):
            kw["bkgpolarityconstraint"] = np.array(bkg, float)
        if how in ("sig", "both"):
            kw["sigpolarityconstraint"] = rng.choice([1., 1]) * np.array(sig)
        con = (sig if how in ("sig", "both") else [0]) + (bkg if how in ("bkg", "both") else [0] * m)
        wins = []
        for _ in range(rng.choice([0, 1, 2])):
            lo = rng.randrange(n)
            wins.append(np.arange(lo, rng.randint(lo + 1, n)))
        arg = [win] + [w if rng.random() < .5 else w[None, :] for w in wins]
        with contextlib.redirect_stdout(io.StringIO()):
            res, exc = call(lambda: N.of_nsmb_con(x.copy(), self.phi, self.Pfs, self.P, self.sf.T, self.st, self.psddnu.T, p["fs"], arg,
                                                  self.ns, self.nb, self.bits, lf, **kw), own=True)
        e = dict(op="ncon", x=vec(x), win=ints(win), lf=lf, con=con, wins=[ints(w) for w in wins], exc=exc)
        if not exc:
            (amp, t, chi, clf, resid, wamp, wchi, wt, iamp, it, ichi, iwamp, iwchi, iwt) = res
            e.update(amp=vec(amp), t=one(t), chi2=one(chi), chi2lf=one(clf), resid=vec(resid), wamp=vec(wamp), wchi=vec(wchi), wt=vec(wt),
                     iamp=one(iamp), it=one(it), ichi=one(ichi), iwamp=vec(iwamp), iwchi=vec(iwchi), iwt=vec(iwt))
        self.ev.append(e)

    def mb(self, rng, unconstrained=False):
        p = self.p
        x, lf = self.signal(rng), self.lf(rng)
        con = [rng.choice([-1, 0, 1]) for _ in range(p["m"])]
        kw = {}
        if unconstrained or rng.random() < .3:
            con = [0] * p["m"]
        else:
            kw["bkgpolarityconstraint"] = np.array(con, float)
        if lf != 500 or rng.random() < .5:
            kw["lfindex"] = lf
        res, exc = call(lambda: N.of_mb(x.copy(), self.phi, self.sf.T, self.st, self.iB, self.B, self.psddnu.T, p["fs"], self.ns, self.nb, **kw), own=True)
        e = dict(op="nmb", x=vec(x), lf=lf, con=con, exc=exc)
        if not exc:
            e.update(amp=vec(res[0]), chi2=one(res[1]), chi2lf=one(res[2]))
        self.ev.append(e)


def one(x):
    x = np.ravel(x)
    return enc(x[0]) if x.size == 1 else ["notascalar"]


def c09(rep):
    rng, tr = rep.rng, []
    for i in range(rep.n(120, 1200)):
        r = Rec(problem(rng) if i % 60 else problem(rng, 2, 48, 30))
        if r.ok:
            r.ip()
            r.pt(rng)
            for _ in range(4):
                r.fit(rng)
            r.mb(rng, True)
            r.fit(rng)
        tr.append(r.ev)
    rep.validate(MOD, tr, "multi-template fits")


def c10(rep):
    rep.model("NsmbMC", "NsmbMCBroken.cfg", expect_violation=True)
    rep.model("NsmbMC", rep.n("NsmbMC.cfg", "NsmbMCDeep.cfg"))
    rng, tr = rep.rng, []
    for i in range(rep.n(120, 1200)):
        r = Rec(problem(rng, 4 if i % 6 == 0 else 3, 10) if i % 60 else problem(rng, 2, 48, 30))
        if r.ok:
            for _ in range(3):
                r.con(rng)
            r.mb(rng)
            r.mb(rng)
            r.con(rng)
            r.con(rng, True)
        tr.append(r.ev)
    rep.validate(MOD, tr, "constrained fits")


def slopet(n):
    res, exc = call(lambda: N.get_slope_dc_template_nsmb(n), own=True)
    return dict(op="nslopet", n=n, exc=exc, cols=[] if exc else mat(res[0].T), shifts=[] if exc else vec(res[1]))


def ttl(rng):
    while True:
        fs, rate = rng.choice([(1e4, 1e3), (1000., 300.), (625e3, 2e3), (1e5, 7e3), (1., .1), (10., 3.), (48., 5.), (1e6, 6e4), (7., 2.), (3., 1.)])
        per = fs / rate
        k = rng.choice([rng.randint(0, 5), rng.uniform(0, 5)])
        n = int(round(k * per)) + rng.choice([0, 0, 0, -1, 1])
        if 3 <= n <= 90:
            break
    t = counts(rng, [rng.randint(-9, 9) for _ in range(n)])
    kw = {}
    con, pos, notch = rng.random() < .5, rng.random() < .6, rng.choice([0, 0, 1, 2, 5, n // 3])
    if con or rng.random() < .3:
        kw["lgcconstrainpolarity"] = con
    if not pos or rng.random() < .3:
        kw["lgcpositivepolarity"] = pos
    if notch or rng.random() < .3:
        kw["notch_window_size"] = notch
    res, exc = call(lambda: N.maketemplate_ttlfit_nsmb(t.copy(), fs, rate, **kw), own=True)
    e = dict(op="nttl", tmpl=vec(t), fs=enc(fs), rate=enc(rate), con=con, positive=pos, notch=notch, exc=exc)
    if not exc:
        e.update(cols=mat(res[0].T), shifts=vec(res[1]), pol=ints(res[2]), win=ints(res[3][0]))
        if len(res[3]) != 1 or np.ndim(res[3][0]) != 2 or np.shape(res[3][0])[0] != 1:
            e["win"] = [-1]
    return e


def c11(rep):
    rng = rep.rng
    ev = [slopet(n) for n in range(1, rep.n(130, 400))]
    ev += [slopet(rng.randint(1, 40)) for _ in range(40)]
    ev += [ttl(rng) for _ in range(rep.n(700, 6000))]
    rng.shuffle(ev)
    rep.validate(MOD, [ev[i:i + 20] for i in range(0, len(ev), 20)], "background templates")


CHECKS = dict(C09=c09, C10=c10, C11=c11)
