"""C12-C15: outlier rejection, automatic cuts, muon selection."""
import itertools
import numpy as np
from common import *
import qetpy as qp
from qetpy.cut import _cut

MOD = "OutliersTrace"


def maskof(m):
    a = np.asarray(m)
    return [bool(v) for v in a.ravel()] if a.dtype == bool and a.ndim == 1 else ["not a boolean mask"]


def iterstat(x, cut, prec, unb=False):
    keep = x.copy()
    res, exc = call(lambda: qp.cut.iterstat(x, cut=cut, precision=prec, **({"return_unbiased_estimates": True} if unb else {})))
    if not exc and len(res) != 3:
        exc = "wrong number of results"
    return dict(op="unbiased" if unb else "iterstat", data=vec(keep), cut=enc(cut), prec=enc(prec), exc=exc,
                mean=NONE if exc else sc(res[0]), std=NONE if exc else sc(res[1]), mask=[] if exc else maskof(res[2]))


def rmout(x, target, maxiter):
    keep = x.copy()
    kw = {}
    if target is not None:
        kw["skewtarget"] = target
    if maxiter is not None:
        kw["maxiter"] = maxiter
    res, exc = call(lambda: qp.cut.removeoutliers(x, **kw))
    return dict(op="rmout", data=vec(keep), target=enc(Fraction(1, 20)) if target is None else enc(target),
                maxiter=20 if maxiter is None else maxiter, exc=exc, mask=[] if exc else maskof(res))


def gen_data(rng, nmin=1, nmax=30):
    n = rng.randint(nmin, nmax) if rng.random() < .99 else rng.randint(120, 400)
    kind = rng.choice(["int", "int", "gauss", "skew", "outlier", "two"])
    if kind == "int":
        x = [rng.randint(-6, 6) for _ in range(n)]
    elif kind == "gauss":
        x = [round(rng.gauss(0, 8)) for _ in range(n)]
    elif kind == "skew":
        x = [round(rng.expovariate(.1)) for _ in range(n)]
    elif kind == "two":
        x = [rng.choice([0, rng.randint(0, 3), 40]) for _ in range(n)]
    else:
        x = [round(rng.gauss(0, 4)) for _ in range(n)]
        for _ in range(rng.randint(1, 3)):
            x[rng.randrange(n)] = rng.choice([-1, 1]) * rng.randint(40, 400)
    if rng.random() < .3:
        x = [-v for v in x]
    return counts(rng, np.array(x, float) * rng.choice([1, 1, .25, 2.0 ** -30, 16]))


def mono(n, k):
    return itertools.combinations_with_replacement(range(k + 1), n)


def chunks(ev, n=25):
    return [ev[i:i + n] for i in range(0, len(ev), n)]


def c12(rep):
    OWN.append(1)
    rng = rep.rng
    d = rep.n("", "_deep")
    rep.model("OutliersMC", "OutliersMC_clip%s.cfg" % d)
    rep.model("OutliersMC", "OutliersMC_trim%s.cfg" % d)
    ev = []
    # the data sets of the design model, on the real code
    for n in range(2, rep.n(5, 6) + 1):
        for t in mono(n, rep.n(4, 5)):
            x = list(t)
            rng.shuffle(x)
            ev.append(iterstat(np.array(x, float), rng.choice([1, 1.5, 2, 2.5]), 1000))
            ev.append(rmout(np.array(x, float), rng.choice([None, None, 0.5, -0.125, 0.0]), rng.choice([None, None, 1, 2, 3])))
    for _ in range(rep.n(500, 6000)):
        x = gen_data(rng)
        ev.append(iterstat(x, rng.choice([3, 3, 2, 1, 1.5, 2.5, .75]), rng.choice([1000., 1000., 10000., 100., 10., 3.])))
    for _ in range(rep.n(500, 6000)):
        x = gen_data(rng)
        if rng.random() < .1:
            x = x.astype(float)
            x[rng.randrange(len(x))] = np.inf
        ev.append(rmout(x, rng.choice([None, None, .25, 1.0, 0.0, -.5]), rng.choice([None, None, None, 1, 2, 5])))
    for _ in range(rep.n(8, 80)):
        n = rng.randint(60, 150)
        x = np.array([rng.gauss(0, 1) for _ in range(n)])
        x = np.round(x * 2 ** 12) / 2 ** 12 * rng.choice([1, .5, 2]) + rng.choice([0, 1, -3])
        if rng.random() < .5:
            x[:3] += 30
        ev.append(iterstat(x, rng.choice([2, 2.5, 3]), 1000., unb=True))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev), "one-dimensional outlier rejection")


def itercov(data, form, nsigma, thr, maxiter, frac):
    kw = {}
    if nsigma is not None:
        kw["nsigma"] = nsigma
    if thr is not None:
        kw["threshold"] = thr
    if maxiter is not None:
        kw["maxiter"] = maxiter
    if frac is not None:
        kw["frac_err"] = frac
    args = (data,) if form == "matrix" else tuple(data[:, j].copy() for j in range(data.shape[1]))
    res, exc = call(lambda: qp.cut.itercov(*args, **kw))
    if not exc and len(res) != 3:
        exc = "wrong number of results"
    return dict(op="itercov", form=form, rows=[vec(data[:, j]) for j in range(data.shape[1])],
                nsigma=enc(2.75 if nsigma is None else nsigma), thr=enc(3 if thr is None else thr),
                maxiter=15 if maxiter is None else maxiter, frac=enc(1e-3 if frac is None else frac), exc=exc,
                mean=[] if exc else vec(res[0]), cov=[] if exc or np.ndim(res[1]) != 2 else mat(res[1]),
                mask=[] if exc else maskof(res[2]))


def c13(rep):
    OWN.append(1)
    rng = rep.rng
    ev = []
    while len(ev) < rep.n(240, 2500):
        nd = rng.choice([2, 2, 2, 3, 3, 4])
        n = rng.randint(nd + 3, 40) if rng.random() < .99 else rng.randint(100, 200)
        A = np.array([[rng.randint(-2, 3) for _ in range(nd)] for _ in range(nd)], float)
        if abs(np.linalg.det(A)) < .5:
            continue
        d = np.array([[round(rng.gauss(0, 5)) for _ in range(nd)] for _ in range(n)], float) @ A.T
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            d[rng.randrange(n)] += np.array([rng.choice([0, rng.randint(-90, 90)]) for _ in range(nd)])
        d += rng.randint(-20, 20)
        d *= rng.choice([1, 1, .125, 2.0 ** -20])
        if np.linalg.cond(np.cov(d.T)) > 1e5:
            continue
        d = counts(rng, d)
        nsigma, thr, mi, fr = rng.choice([(None,) * 4, (None,) * 4, (1.0, None, None, None), (2.0, 2.0, None, None),
                                          (None, 1.5, None, None), (None, None, 1, None), (.5, None, 2, None),
                                          (1.0, 2.0, 4, 1e-6), (1.5, None, None, .05), (1.0, 1.25, 3, .125)])
        ev.append(itercov(d, "matrix", nsigma, thr, mi, fr))
        ev.append(itercov(d, "vectors", nsigma, thr, mi, fr))
    for bad in [lambda: qp.cut.itercov(np.arange(10.)), lambda: qp.cut.itercov(np.arange(10.), np.arange(9.)),
                lambda: qp.cut.itercov(np.arange(10.)[:, np.newaxis])]:
        ev.append(dict(op="valueerror", what="one-dimensional or ragged data raises ValueError", exc=call(bad)[1]))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev, 10), "covariance outlier rejection")


def gen_traces(rng, didv, nb):
    m = rng.randint(5, 22)
    sd = rng.choice([.1, .3, 1.])
    tr = np.array([[round(rng.gauss(0, sd), 3) for _ in range(nb)] for _ in range(m)])
    t = np.arange(nb)
    shape = np.where(t >= nb // 2, np.exp(-(t - nb // 2) / (nb / 6)), 0)
    for i in range(m):
        k = rng.random()
        if k < .15:
            tr[i] += rng.choice([3, 8]) * np.roll(np.round(shape, 4), rng.randint(-nb // 3, nb // 3))
        elif k < .3:
            tr[i] += rng.choice([-1, 1, 1]) * rng.choice([1, 4]) * t / nb
        elif k < .4:
            tr[i] += rng.choice([2, 5, -3])
        elif k < .5:
            tr[i] += rng.choice([1, 2]) * np.array([round(rng.gauss(0, 1), 3) for _ in range(nb)])
    if didv:
        tr += np.round(np.where((t * 4 // nb) % 2 == 0, 1, -1) * 1.5, 3)
    return tr


def autocuts(rng):
    didv = rng.random() < .4
    nb = rng.choice([20, 24, 30, 32, 33, 27, 40]) if not didv else rng.choice([32, 48, 64])
    fs = rng.choice([1e5, 2e5, 4e5, 625e3])
    if didv:
        per = rng.choice([nb // 2, nb, nb // 2]) if nb % 2 == 0 else nb
        per = max(per, 16)
        fs = 400e3
        sg = int(fs // per)
        while fs % sg or nb * sg % fs:
            per = 16
            sg = int(fs // per)
            nb = 16 * rng.choice([1, 2, 3])
    else:
        sg = rng.choice([100, 200])
    tr = gen_traces(rng, didv, nb)
    lg = dict(lgcpileup1=rng.random() < .6, lgcslope=rng.random() < .6, lgcbaseline=rng.random() < .6,
              lgcpileup2=rng.random() < .6, lgcchi2=rng.random() < .6)
    if rng.random() < .3:
        only = rng.choice(sorted(lg))
        lg = {k: k == only for k in lg}
    if rng.random() < .15:
        lg = {k: True for k in lg}
    algo = rng.choice(["removeoutliers", "iterstat"]) if rng.random() < .95 else "nosuch"
    ns = [rng.choice([2, 2, 1.5, 3]) for _ in range(5)]
    if rng.random() < .15:
        tr = counts(rng, np.round(tr * 200), 1.)
    keep = tr.copy()
    kw, picked, orig = {}, [], getattr(_cut, "symmetrizedist", None)
    if rng.random() < .3:
        kw["symmetrizeflag"] = True
        if rng.random() < .7:
            lg["lgcslope"] = True
        if orig is not None:
            _cut.symmetrizedist = lambda v: picked.append(orig(v)) or picked[-1]
    np.random.seed(rng.randint(0, 10 ** 6))
    res, exc = call(lambda: qp.cut.autocuts(tr, fs=fs, is_didv=didv, sgfreq=sg, outlieralgo=algo, **lg, **kw,
                                            nsigpileup1=ns[0], nsigslope=ns[1], nsigbaseline=ns[2], nsigpileup2=ns[3], nsigchi2=ns[4]))
    if orig is not None:
        _cut.symmetrizedist = orig
    return dict(op="autocuts", sym=bool(kw), picked=maskof(picked[0]) if len(picked) == 1 else [], traces=mat(keep), fs=enc(fs), sgfreq=enc(int(sg)), didv=didv, algo=algo,
                pileup1=lg["lgcpileup1"], slope=lg["lgcslope"], baseline=lg["lgcbaseline"],
                pileup2=lg["lgcpileup2"], chi2=lg["lgcchi2"], nsig=[enc(v) for v in ns], exc=exc,
                mask=[] if exc else maskof(res))


def symm(rng):
    n = rng.randint(6, 60)
    c = rng.choice([-6, -3, 0.5, 3, 6])
    x = np.array([round(rng.gauss(c, 5) * 64) / 64 + rng.choice([0, 0, 0, c]) for _ in range(n)])
    keep = x.copy()
    np.random.seed(rng.randint(0, 10 ** 6))
    res, exc = call(lambda: _cut.symmetrizedist(x))
    return dict(op="symm", data=vec(keep), exc=exc, mask=[] if exc else maskof(res))


def c14(rep):
    OWN.append(1)
    rng = rep.rng
    ev = [autocuts(rng) for _ in range(rep.n(220, 2500))]
    ev += [symm(rng) for _ in range(rep.n(60, 600))]
    # documented defaults
    for _ in range(rep.n(6, 40)):
        tr = gen_traces(rng, False, 24)
        res, exc = call(lambda: qp.cut.autocuts(tr, fs=4e5))
        ev.append(dict(op="autocuts", sym=False, picked=[], traces=mat(tr), fs=enc(4e5), sgfreq=enc(200), didv=False, algo="removeoutliers",
                       pileup1=True, slope=True, baseline=True, pileup2=True, chi2=True, nsig=[enc(v) for v in (2, 2, 2, 2, 3)],
                       exc=exc, mask=[] if exc else maskof(res)))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev, 5), "automatic cuts")


def c15(rep):
    OWN.append(1)
    rng, ev = rep.rng, []
    for _ in range(rep.n(1000, 5000)):
        m, nb = rng.randint(1, 5), rng.randint(3, 14)
        tr = np.array([[rng.randint(0, 8) for _ in range(nb)] for _ in range(m)], float)
        for i in range(m):
            if rng.random() < .6:
                p, w = rng.randrange(nb), rng.randint(1, nb)
                tr[i, p:p + w] = rng.choice([8, 8, 12]) - np.array([rng.choice([0, 0, 0, 1, 3]) for _ in tr[i, p:p + w]])
        tr *= rng.choice([1, .5, 2.0 ** -20])
        if rng.random() < .15:
            tr -= rng.choice([tr.max(), tr.max() + 1, 3.])
        tr = counts(rng, tr)
        nsat = rng.randint(1, nb)
        th = rng.choice([.95, .75, .5, .875, 1.0, .8])
        if rng.random() < .1:
            nsat = float(nsat) + .25
        res, exc = call(lambda: qp.cut.get_muon_cut(tr, thresh_pct=th, nsatbins=nsat))
        ev.append(dict(op="muon", traces=mat(tr), thresh=enc(th), nsat=int(nsat), exc=exc, mask=[] if exc else maskof(res)))
    # defaults: 95 % for 600 bins
    for _ in range(rep.n(4, 20)):
        nb = rng.choice([605, 700, 620])
        tr = np.zeros((3, nb))
        for i in range(3):
            p = rng.randrange(nb - 590)
            tr[i, p:] = 4
            tr[i, p] = 4.125
            tr[i, p + rng.choice([599, 600, 601]):] = rng.choice([3, 4])
        res, exc = call(lambda: qp.cut.get_muon_cut(tr))
        ev.append(dict(op="muon", traces=mat(tr), thresh=enc(.95), nsat=600, exc=exc, mask=[] if exc else maskof(res)))
    rng.shuffle(ev)
    rep.validate(MOD, chunks(ev), "muon selection")


CHECKS = dict(C12=c12, C13=c13, C14=c14, C15=c15)
