"""C28: TES noise simulation."""
import numpy as np
from common import *
import matplotlib
matplotlib.use("Agg")
import qetpy as qp
from chk_didv import quiet, exact, params, tes, with_priors

MOD = "SimTrace"
REAL = ["s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn", "s_itfn", "s_isquid", "s_psquid", "s_itot", "s_ptot",
        "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal", "s_iloadsc", "s_itotsc"]
CPLX = ["dIdV", "dIdP", "dIdVnormal", "dIdVsc"]
ATTR = dict(rsh="rshunt", L="inductance", beta="beta", l="loopgain", tau0="tau0", r0="r0", rload="rload", G="G", qb="qetbias", tc="tc",
            tl="tload", tb="tbath", sdc="squiddc", sp="squidpole", sn="squidn", i0="i0")


def kwargs(rng, part):
    """constructor arguments; those left out take their documented defaults"""
    u = rng.uniform
    full = dict(rload=u(5e-3, 3e-2), r0=u(.01, .3), rshunt=u(2e-3, 2e-2), beta=rng.choice([0., u(.1, 3)]), loopgain=rng.choice([u(.1, .8), u(1.5, 30)]),
                inductance=10 ** u(-8, -6), tau0=10 ** u(-5, -2.5), G=10 ** u(-11, -8), qetbias=10 ** u(-5, -3), tc=u(.03, .1),
                tload=u(.01, 2), tbath=u(.005, .028), n=float(rng.choice([3, 4, 5, 6])), lgcb=rng.random() < .5, squiddc=10 ** u(-12.5, -11),
                squidpole=rng.choice([0., 10 ** u(0, 4)]), squidn=rng.choice([.5, 1., 1.5, 2., 3.]))
    if rng.random() < .25:                          # equally well-defined, if unusual
        k = rng.choice(["beta", "loopgain", "loopgain", "tbath", "tload", "inductance", "qetbias"])
        full[k] = dict(beta=u(-.9, -.1), loopgain=rng.choice([u(.001, .01), u(-3, -.1), 1 + u(.05, .3)]), tbath=full["tc"] * u(1.01, 1.5), tload=0.,
                       inductance=10 ** u(-6, -4), qetbias=-10 ** u(-5, -3))[k]
    return {k: v for k, v in full.items() if not part or rng.random() < .6}


DEF = dict(rload=0.012, r0=0.150, rshunt=0.005, beta=1.0, loopgain=10.0, inductance=400.0e-9, tau0=500.0e-6, G=5.0e-10, qetbias=160e-6,
           tc=0.040, tload=0.9, tbath=0.020, n=5.0, lgcb=True, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)


def sim_trace(rng):
    kw = kwargs(rng, rng.random() < .3)
    a = dict(DEF, **kw)
    f = [10 ** rng.uniform(-1, 6) for _ in range(rng.randint(1, 4))]
    if rng.random() < .2:
        a["squidpole"] = kw["squidpole"] = 0.
        f = [rng.choice([x, -x]) for x in f]
    how = rng.choice(["attr", "arg", "scalar", "changed"])
    if how == "scalar":
        f = f[:1]
    F = f[0] if how == "scalar" and rng.random() < .7 else np.array(f)
    if how in ("attr",):
        kw["freqs"] = F
    o, exc = quiet(lambda: qp.sim.TESnoise(**kw))
    ev = dict(op="sim", f=vec(f), exc=exc, c={}, r={},
              p=dict(rload=enc(a["rload"]), r0=enc(a["r0"]), rsh=enc(a["rshunt"]), beta=enc(a["beta"]), l=enc(a["loopgain"]), L=enc(a["inductance"]),
                     tau0=enc(a["tau0"]), G=enc(a["G"]), qb=enc(a["qetbias"]), tc=enc(a["tc"]), tl=enc(a["tload"]), tb=enc(a["tbath"]),
                     n=int(a["n"]), lg=bool(a["lgcb"]), sdc=enc(a["squiddc"]), sp=enc(a["squidpole"]), hn=int(round(2 * a["squidn"]))))
    if exc:
        return [ev]
    if how == "changed":
        o.freqs = F
    args = (F,) if how in ("arg", "scalar") else ()
    if rng.random() < .4:                           # answers for other frequencies may not linger
        for name in rng.sample(REAL + CPLX, 4):
            quiet(lambda: getattr(o, name)(2.5 * F + 1))
    for name in rng.sample(REAL + CPLX, len(REAL + CPLX)):
        v, exc = quiet(lambda: getattr(o, name)(*args))
        if exc:
            ev["exc"] = exc
            break
        v = np.atleast_1d(v)[:len(f) + 2]               # too many are as wrong as one too many
        if name in CPLX:
            ev["c"][name] = cvec(v)
        else:
            ev["r"][name] = vec(v)
    return [ev]


def eres(rng):
    u = rng.uniform
    n = rng.randint(2, 12)
    two = rng.random() < .5
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    tau, eff = 10 ** u(-5, -3), u(.05, 1)
    if two:
        n = max(n, 3)
        f = np.fft.fftfreq(n, 1 / 10 ** u(3, 6))
        if rng.random() < .3:
            f = np.fft.fftshift(f)
    else:
        f = np.sort(10 ** r.uniform(0, 6, n))
        if rng.random() < .5:
            f = np.fft.rfftfreq(2 * n, 1 / 10 ** u(3, 6))
    S = 10 ** u(-36, -33) * (1 + r.rand(len(f)))
    out, exc = quiet(lambda: qp.sim.energy_res_estimate(f, tau, S, eff))
    return [dict(op="eres", f=vec(f), S=vec(S), tau=enc(tau), eff=enc(eff), out=enc(float(out)) if not exc else enc(0), exc=exc)]


def load(rng, objs):
    o, np_, q = rng.choice(objs)
    kind = rng.choice((["transition"] * 3 if np_ == 2 else ["superconducting", "superconducting", "normal", "normal"]) + ["other"])
    if kind == "other":
        kind = rng.choice(["Transition", "", "sc"])
    kind = "".join(list(kind))                    # never the interned literal
    k = {x: y for x, y in kwargs(rng, True).items() if x in ("G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole", "squidn")}
    u = dict(k)
    rn = []
    if kind == "normal" and rng.random() < .8:
        u["rnormal"] = rng.uniform(1e-3, 5e-3)
        rn = [enc(u["rnormal"])]
    if kind != "transition" or rng.random() < .5:
        u["noisetype"] = kind
    t, exc = quiet(lambda: qp.sim.loadfromdidv(o, **u))
    back = {v: s for s, v in ATTR.items()}
    ev = dict(op="load", kind=kind, rn=rn, exc=exc, q=q, o={}, a={back[x]: enc(float(y)) for x, y in k.items() if x != "G" or kind == "transition"})
    if not exc:
        ev["o"] = {s: enc(float(getattr(t, v))) for s, v in ATTR.items()}
    return [ev]


def fitted(rng, n):
    out = []
    for i in range(n):
        np_ = 1 + i % 2
        if i % 3 == 2:                              # fits with priors have no other parameters
            got = with_priors(rng, np_)
            if got is None or quiet(lambda: got[1].dofit(np_, got[5], got[6]))[1]:
                continue
            o = got[1]
            s = o.fitresult(np_)["params"]
        else:
            o, exc, p, dt, fs = exact(rng, np_, small=True)
            if exc:
                raise MachineryError("no dI/dV data: " + exc)
            if quiet(lambda: o.dofit(np_))[1]:
                continue
            s = o.fitresult(np_)["smallsignalparams"]
        q = {k: enc(float(s.get(k, 0.))) for k in ("rsh", "rp", "L", "r0", "beta", "l", "tau0")}
        out.append((o, np_, q))
    return out


def c28(rep):
    rng = rep.rng
    rep.model("SimMC", "SimMCBroken.cfg", expect_violation=True)
    rep.model("SimMC", "SimMC.cfg")
    T = [sim_trace(rng) for _ in range(rep.n(450, 3000))]
    T += [eres(rng) for _ in range(rep.n(150, 1500))]
    objs = fitted(rng, rep.n(12, 40))
    T += [load(rng, objs) for _ in range(rep.n(120, 1000))]
    rep.validate(MOD, T, "noise simulations")


CHECKS = dict(C28=c28)
