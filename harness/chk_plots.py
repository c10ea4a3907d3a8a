"""C31: what the plotting functions draw."""
import contextlib, io, os, re, shutil, tempfile, types, warnings
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.figure import Figure
import qetpy as qp
from qetpy import plotting as PL
from qetpy.core import _of_nsmb as N
from qetpy.utils import lowpassfilter
import chk_didv, chk_nonlin, chk_sim
from chk_iv import v2, v3
from chk_of import model_histories

MOD = "PlotsTrace"
WORDS = ["Data (LP filtered)", "Data", "Bckg. Start Times", "Flipped Data", "Total Fit", "Background Fit", "Signal Fit", "1-Pole Fit", "2-Pole Fit",
         "3-Pole Fit", "Bounds", "Mean", "Time Domain", "TES Johnson Noise", "Load Noise", "TFN Noise", "Total Noise",
         "Squid+Electronics Noise", "Raw Data", "Uncorrelated Noise", "Correlated Noise", "Pulse", "PSD", "real", "imag", "Fit"]


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, 120)


def tokens(text, names):
    out = []
    for w in sorted(names, key=len, reverse=True):
        if w and w in text:
            out.append(w)
            text = text.replace(w, " | ")
    return sorted(out)


def flat(a):
    a = np.ma.asarray(a)
    return vec(np.asarray(np.ma.filled(a.astype(float), np.nan)).ravel())


def shown(ax):
    """the chi-square written beside a curve"""
    got = [re.search(r"chi\^2\$? *= *(-?[0-9][0-9.]*(?:e[-+]?[0-9]+)?)", str(l.get_label())) for l in ax.get_lines()]
    return [enc(float(m.group(1))) for m in got if m]


def panel(ax, names):
    ser, bars = [], []
    for l in ax.get_lines():
        ls, mk = l.get_linestyle(), l.get_marker()
        if l.get_visible() and not (ls in ("None", " ", "") and mk in ("None", None, " ", "")):
            ser.append(dict(n=tokens(str(l.get_label()), names), x=flat(l.get_xdata()), y=flat(l.get_ydata())))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).reshape(-1, 2)
            ser.append(dict(n=tokens(str(c.get_label()), names), x=flat(o[:, 0]), y=flat(o[:, 1])))
        elif isinstance(c, LineCollection):
            b = []
            for p in c.get_paths():
                v = np.asarray(np.ma.filled(np.ma.asarray(p.vertices, float), np.nan))
                if v.shape == (2, 2):
                    b.append([enc(v[0, 0]), enc(v[0, 1]), enc(v[1, 0]), enc(v[1, 1])])
            bars.append(b)
    return dict(n=tokens(ax.get_title(), names), series=ser, bars=bars, lim=vec(ax.get_xlim()), limy=vec(ax.get_ylim()), chi2=shown(ax))


def picture(fig, names):
    return [panel(ax, names) for ax in fig.axes]


def digest(o, depth=0):
    """values held by an object, as something comparable"""
    if isinstance(o, np.ndarray):
        return ("a", str(o.dtype), o.shape, o.tobytes() if o.dtype != object else repr(o))
    if isinstance(o, dict):
        return tuple(sorted((str(k), digest(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return tuple(digest(v, depth + 1) for v in o)
    if hasattr(o, "__dict__") and depth < 4 and not callable(o):
        return digest(vars(o), depth + 1)
    return repr(o)


class Desk:
    """one pyplot state; the figures left open by earlier calls stay"""

    def __init__(self, folder):
        self.dir = folder
        plt.close("all")
        self.ev = []

    def user(self, rng):
        fig, ax = plt.subplots(1, rng.choice([1, 1, 2]))
        for a in np.atleast_1d(ax):
            a.plot(np.arange(4), [rng.random() for _ in range(4)], label="mine")

    def run(self, f, ev, held, names, save=False, nfig=1, want=()):
        """make the call, record what became of the figures"""
        names = list(names) + WORDS
        before = {k: picture(plt.figure(k), names) for k in plt.get_fignums()} if len(plt.get_fignums()) < 12 else {}
        if before and self.current is not None and plt.fignum_exists(self.current):
            plt.figure(self.current)
        open0, files0 = set(plt.get_fignums()), set(os.listdir(self.dir))
        d0 = [digest(h) for h in held]
        saved, orig = [], Figure.savefig

        def tap(fig, fname, *a, **k):
            if not any(fig is g for g, _ in saved):
                saved.append((fig, picture(fig, names)))
            k.pop("dpi", None)
            return orig(fig, fname, *a, dpi=12, **k)

        Figure.savefig = tap
        here = os.getcwd()
        try:
            os.chdir(self.dir)
            res, exc = quiet(f)
        finally:
            os.chdir(here)
            Figure.savefig = orig
        new = sorted(set(plt.get_fignums()) - open0)
        drawn = [p for _, p in saved]
        drawn += [picture(plt.figure(k), names) for k in new if not any(plt.figure(k) is g for g, _ in saved)]
        ev = dict(dict(askx=[], asky=[]), **ev, exc=exc, panels_drawn=[p for fig in drawn for p in fig], kept=[digest(h) for h in held] == d0,
                  others=all(plt.fignum_exists(k) and picture(plt.figure(k), names) == v for k, v in before.items()))
        made = set(os.listdir(self.dir)) - files0
        ev.update(files=len(made), nfig=nfig, save=bool(save), named=all(any(w in m for w in want) for m in made) if want else True)
        for m in made:
            os.remove(os.path.join(self.dir, m))
        self.ev.append(ev)
        if len(plt.get_fignums()) > 10:
            for k in plt.get_fignums()[:-3]:
                plt.close(k)
        if new:
            plt.figure(new[-1])
        return res

    @property
    def current(self):
        return plt.gcf().number if plt.get_fignums() else None


def seeded(rng):
    return np.random.RandomState(rng.randint(0, 2 ** 31 - 1))


def base(rng):
    return rng.choice(["run7", "my plot", "a_b", "x"])


# ------------------------------------------------------------------ IV
def iv_object(rng, r):
    nt, nc = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
    ni = rng.randint(5, 7)
    rsh = .01
    b = np.sort(1e-5 * (1 + 5 * r.rand(nt, nc, ni)) + np.arange(ni) * 1e-4)[..., ::-1] * rng.choice([1, 1, -1])
    rn = .2 + r.rand(nt, nc, 1)
    rt = rn * np.where(np.arange(ni) < 3, 1., .2 + .1 * r.rand(nt, nc, ni))
    y = b * rsh / (rsh + .02 + rt)
    e = np.abs(y) * .01 * (.5 + r.rand(nt, nc, ni))
    if nt * nc > 1 and rng.random() < .5:                       # different numbers of bias points are padded
        for a in (b, y, e):
            a[-1, -1, -1] = np.nan
    names = ["sensor%s" % c for c in rng.sample("ABCDEF", nc)]
    ib = rng.random() < .5
    if ib:
        ok, exc = quiet(lambda: qp.IBIS(y, e, b, .01 * np.abs(b), rsh, 1e-4, range(3), rp_guess=.01, rp_err_guess=1e-3, chan_names=names))
    else:
        ok, exc = quiet(lambda: qp.IV(y, e, b * rsh, .01 * np.abs(b) * rsh, .03, 1e-3, names, normalinds=range(3)))
    if exc:
        return None
    _, exc = quiet(ok.analyze if ib else ok.calc_iv)
    return None if exc else (ok, ib, nt, nc, names)


def subset(rng, n):
    """a selection in one of the forms a user passes: (argument, 1-based list)"""
    how = rng.choice(["all", "all", "int", "list", "array", "tuple"])
    if how == "all":
        return "all", list(range(1, n + 1))
    if how == "int":
        k = rng.randrange(n)
        return k, [k + 1]
    ix = rng.sample(range(n), rng.randint(1, n))
    return (ix if how == "list" else np.array(ix) if how == "array" else tuple(ix)), [i + 1 for i in ix]


DECKS = {}


def deal(rng, key, options):
    """like rng.choice, but every option comes up once before any comes up again"""
    d = DECKS.setdefault(key, [])
    if not d:
        d.extend(rng.sample(options, len(options)))
    return d.pop()


def do_iv(desk, rng, save):
    r = seeded(rng)
    got = iv_object(rng, r)
    if got is None:
        return
    o, ib, nt, nc, names = got
    what = deal(rng, "iv", ["iv", "iv", "rv", "pv", "all"])
    ta, temps = subset(rng, nt)
    ca, chans = subset(rng, nc)
    fit = rng.random() < .7
    nm = base(rng)
    kw = dict(temps=ta, chans=ca)
    if what in ("iv", "all"):
        kw["showfit"] = fit
    if save:
        kw.update(lgcsave=True, savepath=desk.dir + "/", savename=nm)
    tn = ["Temp %d" % k for k in range(nt)]
    try:
        ev = dict(op="iv", what=what, ib=ib, temps=temps, chans=chans, nt=nt, vb=v3(o.vb), vbe=v3(o.vb_err), ites=v3(o.ites), itese=v3(o.ites_err),
                  r0=v3(o.r0), r0e=v3(o.r0_err), ptes=v3(o.ptes), ptese=v3(o.ptes_err), rfit=v2(o.rfit), showfit=fit, chnames=names, tnames=tn)
    except AttributeError:
        return
    f = getattr(o, {"iv": "plot_iv", "rv": "plot_rv", "pv": "plot_pv", "all": "plot_all_curves"}[what])
    desk.run(lambda: f(**kw), ev, [o], names + tn, save, 3 if what == "all" else 1, [nm])


# --------------------------------------------------------------- noise
def noise_object(rng, r, nch=None, names=None):
    nch = nch or rng.choice([1, 2, 2, 3])
    n, m = rng.randint(16, 24), nch + 3
    raw = r.standard_normal((m, nch, n)) + r.standard_normal((m, 1, n)) * rng.choice([0, 1])
    names = names or ["det%s" % c for c in rng.sample("PQRSTU", nch)]
    nm = rng.choice(["run one", "noise4", "long name here"])
    return qp.Noise(raw * rng.choice([1, 1e-6]), rng.choice([8., 625e3]), list(names), name=nm), names, nm


def prepare(rng, o, what):
    quiet(lambda: o.calculate_psd())
    if what in ("corr",):
        quiet(lambda: o.calculate_corrcoeff())
    if what in ("csd", "decor"):
        quiet(lambda: o.calculate_csd())
    if what == "decor":
        quiet(lambda: o.calculate_uncorr_noise())


# kind of plot, channels, overlaid, with all its curves
NOISE = ([("psd", k, ov, False) for k in (1, 2, 3) for ov in (True, False)] + [("reim", k, False, False) for k in (1, 2, 3)]
         + [(w, k, False, False) for w in ("corr", "csd") for k in (2, 3)] + [("csd", 2, True, False), ("csd", 3, True, False)]
         + [("decor", k, ov, full) for k in (2, 3) for ov in (True, False) for full in (True, False)])


def do_noise(desk, rng, save):
    what, K, over, full = deal(rng, "noise", NOISE)
    o, names, nm = noise_object(rng, seeded(rng), K)
    missing = rng.random() < .06
    if not missing or what == "csd" and over:
        prepare(rng, o, what)
    kw = dict(lgcsave=True, savepath=desk.dir + "/") if save else {}
    flag = {k: rng.random() < .5 for k in ["overlay", "smooth", "real", "data", "uncorr", "correl", "sum"]}
    flag["overlay"] = over
    if full:
        flag.update(data=True, uncorr=True, correl=True, sum=True)
    if what == "decor" and not flag["overlay"] and not (flag["data"] or flag["uncorr"] or flag["correl"] or flag["sum"]):
        flag["data"] = True
    pairs = [(rng.randint(1, K), rng.randint(1, K)) for _ in range(rng.choice([1, 1, 2]))]
    win = rng.choice([5, 7])
    out = what == "csd" and over                                # one of the pairs names a channel that is not there
    if out:
        pairs[-1] = rng.choice([(K + 1, rng.randint(1, K)), (rng.randint(1, K), K + 1)])
        missing = missing or out
    if what == "psd":
        f = lambda: o.plot_psd(lgcoverlay=flag["overlay"], **kw)
    elif what == "reim":
        f = lambda: o.plot_reim_psd(**kw)
    elif what == "corr":
        f = lambda: o.plot_corrcoeff(lgcsmooth=flag["smooth"], nwindow=win, **kw)
    elif what == "csd":
        f = lambda: o.plot_csd(whichcsd=["%d%d" % (i - 1, j - 1) for i, j in pairs], lgcreal=flag["real"], **kw)
    else:
        f = lambda: o.plot_decorrelatednoise(lgcoverlay=flag["overlay"], lgcdata=flag["data"], lgcuncorrnoise=flag["uncorr"],
                                             lgccorrelated=flag["correl"], lgcsum=flag["sum"], **kw)
    if missing:
        desk.run(f, dict(op="none"), [o], names, False, 0)
        desk.ev[-1]["save"] = False
        return
    e3 = lambda a: [] if a is None else v3(a)
    e2 = lambda a: [] if a is None else v2(a)
    ev = dict(op="noise", what=what, names=names, f=vec(o.freqs), psd=e2(o.psd), re=e2(o.real_psd), im=e2(o.imag_psd), corr=e3(o.corrcoeff),
              rcsd=e3(o.real_csd), icsd=e3(o.imag_csd), unc=e2(o.uncorrnoise), cor=e2(o.corrnoise), win=win, pairs=pairs, **flag)
    desk.run(f, ev, [o], names, save, len(pairs) if what == "csd" else 1, [nm.replace(" ", "_")])


def do_compare(desk, rng, save):
    pool = rng.sample(["detP", "detQ", "detR", "detS"], 3)
    decor, count = deal(rng, "compare", [(False, 1), (False, 2), (False, 2), (False, 3), (True, 1), (True, 2), (True, 2), (True, 3)])
    objs = []
    for k in range(count):
        nch = rng.choice([2, 2, 3]) if decor else rng.choice([1, 2])
        o, names, _ = noise_object(rng, seeded(rng), nch, rng.sample(pool, nch))
        o.name = "cool%d" % k
        prepare(rng, o, "decor" if decor and rng.random() < .8 else "psd")
        objs.append((o, names))
    ask = rng.sample(pool, rng.randint(1, 3)) + (["nowhere"] if rng.random() < .3 else [])
    known = [c for c in ask if any(c in n for _, n in objs)]
    if not known:
        return
    ev = dict(op="compare", chans=known, decor=decor,
              objs=[dict(names=n, name=o.name, f=vec(o.freqs), psd=v2(o.psd), unc=[] if o.uncorrnoise is None else v2(o.uncorrnoise),
                         hasunc=o.uncorrnoise is not None) for o, n in objs])
    kw = dict(lgcsave=True, savepath=desk.dir + "/") if save else {}
    arg = np.array(ask) if rng.random() < .3 else ask
    desk.run(lambda: PL.compare_noise([o for o, _ in objs], arg, lgcdecorrelatednoise=decor, **kw), ev, [o for o, _ in objs],
             pool + [o.name for o, _ in objs], save, len(known), known)


# ---------------------------------------------------------- simulation
CURVES = dict(current=[("TES Johnson Noise", "s_ites"), ("Load Noise", "s_iload"), ("TFN Noise", "s_itfn"), ("Total Noise", "s_itot"), ("Squid+Electronics Noise", "s_isquid")],
              power=[("TES Johnson Noise", "s_ptes"), ("Load Noise", "s_pload"), ("TFN Noise", "s_ptfn"), ("Total Noise", "s_ptot"), ("Squid+Electronics Noise", "s_psquid")],
              sc=[("Squid+Electronics Noise", "s_isquid"), ("Load Noise", "s_iloadsc"), ("Total Noise", "s_itotsc")],
              normal=[("Squid+Electronics Noise", "s_isquid"), ("TES Johnson Noise", "s_itesnormal"), ("Load Noise", "s_iloadnormal"), ("Total Noise", "s_itotnormal")])


def do_sim(desk, rng, save):
    r = seeded(rng)
    n = rng.randint(5, 9)
    f = np.arange(n) * 10 ** rng.uniform(0, 4)
    psd = 1e-22 * (.5 + r.rand(n))
    if rng.random() < .2:                                       # several frequencies, not equally spaced
        f[1:] = np.sort(10 ** (6 * r.rand(n - 1)))
    kw = chk_sim.kwargs(rng, rng.random() < .3)
    how = deal(rng, "sim", list(CURVES))
    qb = rng.choice([1.2345e-4, 3e-5, 2e-6])
    a = qp.sim.TESnoise(**kw)
    own = rng.random() < .5
    o = qp.sim.TESnoise(freqs=np.array([1., 7.]), **kw) if own else qp.sim.TESnoise(**kw)
    curves = []
    for name, m in CURVES[how]:
        v, exc = quiet(lambda: np.asarray(getattr(a, m)(f[1:])))
        if exc:
            return
        curves.append(dict(n=name, v=vec(np.concatenate([[0.], np.abs(v)]))))
    if how == "power":                                          # the data are turned into power by the responsivity of the model
        d, exc = quiet(lambda: psd[1:] / np.abs(a.dIdP(f[1:])) ** 2)
        if exc:
            return
        curves.append(dict(n="Raw Data", v=vec(np.concatenate([[0.], d]))))
    else:
        curves.append(dict(n="Raw Data", v=vec(psd)))
    ev = dict(op="sim", f=vec(f), curves=curves)
    k = dict(lgcsave=True, figsavepath=desk.dir + "/") if save else {}
    if rng.random() < .4:
        k["xlims"] = rng.choice([(1., 1e6), (.5, 3e4)])
    if rng.random() < .4:
        k["ylims"] = rng.choice([(1e-14, 1e-9), (2e-13, 1e-11)])
    ev.update(askx=vec(k.get("xlims", ())), asky=vec(k.get("ylims", ())))
    desk.run(lambda: PL.plot_noise_sim(f, psd, o, how, qb, **k), ev, [o, f, psd], [], save, 1, ["%.3f" % (qb * 1e6)])


# --------------------------------------------------------------- dI/dV
def poles_arg(rng):
    how = rng.choice(["all", "all", "int", "list", "array"])
    if how == "all":
        return "all", [1, 2, 3]
    if how == "int":
        k = rng.randint(1, 3)
        return k, [k]
    p = rng.sample([1, 2, 3], rng.randint(1, 3))
    return (p if how == "list" else np.array(p)), p


def didv_object(rng):
    kind = deal(rng, "didv object", ["plain", "plain", "plain", "three", "priors", "priors"])
    if kind == "priors":
        got = None
        for k in rng.choice([[1], [2], [2], [3]]):
            got = chk_didv.with_priors(rng, k)
            if got:
                quiet(lambda: got[1].dofit(k, got[5], got[6]))
        return got and got[1]
    o, exc, p, dt, fs = chk_didv.exact(rng, 3 if kind == "three" else rng.choice([1, 2, 2]), small=True)
    if exc:
        return None
    for k in rng.choice([[3], [2, 3], [1, 3]] if kind == "three" else [[], [1], [2], [1, 2], [2, 1]]):
        quiet(lambda: o.dofit(k))
    return o


def fits_of(o):
    out = {}
    for k in (1, 2, 3):
        r, exc = quiet(lambda: o.fitresult(k))
        if not exc and r:
            q = dict(r.get("smallsignalparams", r["params"]))
            q.pop("dt", None)
            out[k] = (r, q)
    return out


def do_didv(desk, rng, save, o=None):
    o = o or didv_object(rng)
    if o is None:
        return None
    fits = fits_of(o)
    arg, pol = poles_arg(rng)
    what = deal(rng, "didv", ["full", "single", "zoomed", "flip", "reim", "absphase", "dvdi"])
    nm = base(rng)
    kw = dict(poles=arg)
    if save:
        kw.update(saveplot=True, savepath=desk.dir + "/", savename=nm)
    zoom = .1
    if what == "zoomed" and rng.random() < .7:
        zoom = kw["zoomfactor"] = rng.choice([.5, .2, .05])
    f = getattr(o, dict(full="plot_full_trace", single="plot_single_period_of_trace", zoomed="plot_zoomed_in_trace", flip="plot_didv_flipped",
                        reim="plot_re_im_didv", absphase="plot_abs_phase_didv", dvdi="plot_re_vs_im_dvdi")[what])
    try:
        costs = [[enc(float(r["cost"])), enc(float(r["params"]["dt"]))] for r, _ in fits.values()]
        if what in ("full", "single", "zoomed", "flip"):
            t = o._time
            ev = dict(op="time", what=what, time=vec(t), tmean=vec(o._tmean), offset=enc(float(o._offset)), sg=enc(float(o._sgfreq)), zoom=enc(zoom), costs=costs,
                      fits=[dict(n="%d-Pole Fit" % k, v=vec(qp.squarewaveresponse(t, o._sgamp, o._sgfreq, o._dutycycle, **q)), dt=enc(float(r["params"]["dt"])))
                            for k, (r, q) in fits.items() if k in pol])
        else:
            ev = dict(op="freq", what=what, f=vec(o._freq), mean=cvec(o._didvmean), std=cvec(o._didvstd), costs=costs,
                      fits=[dict(n="%d-Pole Fit" % k, z=cvec(qp.complexadmittance(o._freq, **q))) for k, (r, q) in fits.items() if k in pol])
    except (AttributeError, KeyError):
        return o
    desk.run(lambda: f(**kw), ev, [o], [], save, 2 if what in ("reim", "absphase") else 1, [nm])
    return o


# ------------------------------------------------- pulse and template fits
def do_nonlin(desk, rng, save):
    np_ = deal(rng, "nonlin", [1, 2, 3, 4])
    n = 48
    p, sc, tr, x, psd, fs = chk_nonlin.scene(rng, np_, n)
    o = qp.OFnonlin(psd, fs, template=None)
    got, kw = [], dict(npolefit=np_, scale_amplitude=sc, taurise=tr if np_ == 1 else None, guess=tuple(p))
    import qetpy.core._fitting as F
    orig = getattr(F, "plotnonlin", None)
    if orig is None:
        return

    def spy(obj, pulse, params, errors):
        got.append((obj, np.array(pulse), np.array(params, float)))

    F.plotnonlin = spy
    try:
        _, exc = quiet(lambda: o.fit_falltimes(x, lgcplot=True, **kw))
    finally:
        F.plotnonlin = orig
    if exc or len(got) != 1:
        return
    obj, xp, par = got[0]
    err = np.abs(par) * .01
    try:
        if np_ >= 3:
            m, t = (o.threepole, o.threepoletime) if np_ == 3 else (o.fourpole, o.fourpoletime)
            v = list(par)
        else:
            m, t = o.twopole, o.twopoletime
            v = list(par) if np_ == 2 else [par[0], o.taurise, par[1], par[2]]
        ev = dict(op="nonlin", f=vec(o.freqs), data=cvec(o.data), modelf=cvec(m(*v)), error=vec(o.error), time=vec(o.time), pulse=vec(xp), model=vec(t(*v)))
    except AttributeError:
        return
    desk.run(lambda: PL.plotnonlin(o, xp, tuple(par), tuple(err)), ev, [o, xp], [], False, 1)


def do_nsmb(desk, rng, save):
    r = seeded(rng)
    n, m = rng.randint(34, 44), rng.choice([0, 1, 2])
    fs = 625e3
    nb = m + 2
    s = np.exp(-np.arange(n) / 6.) * (np.arange(n) > 2)
    t = [s] + [r.randn(n) for _ in range(m)] + [np.arange(n) / n, np.ones(n)]
    if rng.random() < .5:
        t[-1], t[-2] = t[-2], t[-1]
    t = np.array(t)
    a = r.randn(nb + 1) * 2
    if rng.random() < .25:
        a[0] = 0.
    k = rng.choice([0, 0, rng.randint(-n // 2 + 1, n // 2)])
    scl = rng.choice([1., 1e-6])
    x = scl * (a @ t + .3 * r.randn(n))
    a = a * scl
    lp = rng.random() < .5
    starts = [float(rng.randint(1, n - 2)) for _ in range(nb)] if rng.random() < .4 else None
    psddnu = np.full((1, n), 1e-3 * scl ** 2)
    ev = dict(op="nsmb", pulse=vec(x), amp=vec(a), temps=mat(t), shift=k, w=enc(float(psddnu[0, 0])), lp=lp, filt=vec(lowpassfilter(x[None, :], 30e3, fs)[0]) if lp else [],
              starts=[] if starts is None else vec(starts))
    kw = {}
    if lp:
        kw["lpFiltFreq"] = 30e3
    if starts:
        kw["background_templates_shifts"] = starts
    if save:
        kw.update(lgcsaveplots=5, figPrefix="fit_here", savepath=desk.dir + "/")
    if rng.random() < .2:
        kw["xlim"] = [0, n // 2]
    ev.update(askx=vec(kw.get("xlim", ())), asky=[])
    tf = np.fft.fft(t, axis=1) / n
    A = a[:, None].copy()
    desk.run(lambda: PL.plotnsmb(x[None, :], fs, k / fs, A, tf, 1, nb, n, psddnu, **kw), ev, [x, A, tf, psddnu], [], save, 1, ["fit_here5"])


OPS = dict(iv=do_iv, noise=do_noise, compare=do_compare, sim=do_sim, didv=do_didv, nonlin=do_nonlin, nsmb=do_nsmb)
EACH = dict(noise=23)


def c31(rep):
    DECKS.clear()
    rep.model("PlotsObject", "PlotsObjectBroken.cfg", expect_violation=True)
    hs = model_histories(rep, "PlotsObject", rep.n("PlotsObject.cfg", "PlotsObject3.cfg"))
    rng, tr = rep.rng, []
    rng.shuffle(hs)
    hs = hs[:rep.n(60, 300)]
    rep.notes["histories_replayed"] = len(hs)
    folder = tempfile.mkdtemp(prefix="plots.")
    try:
        for h in hs:
            desk = Desk(folder)
            for op, save in h:
                if op == "user":
                    desk.user(rng)
                else:
                    OPS[op](desk, rng, save)
            if desk.ev:
                tr.append(desk.ev)
        for op in OPS:
            for i in range(rep.n(EACH.get(op, 10), 40)):
                desk = Desk(folder)
                if rng.random() < .5:
                    desk.user(rng)
                if op == "didv":                                 # several plots of one object
                    o = None
                    for _ in range(3):
                        o = do_didv(desk, rng, rng.random() < .4, o)
                else:
                    OPS[op](desk, rng, rng.random() < .4)
                if desk.ev:
                    tr.append(desk.ev)
    finally:
        plt.close("all")
        shutil.rmtree(folder, ignore_errors=True)
    rep.validate(MOD, tr, "figures")


CHECKS = dict(C31=c31)
