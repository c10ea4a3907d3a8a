"""How tightly is the specification bound to what is recorded?

tools/binding.py C01 [n]: records the check's traces, perturbs one recorded value at a
time (numbers by 1e-3 relative, masks and booleans flipped, exceptions invented) and
reports per (event kind, field) how often TLC rejects the perturbed trace.  Fields that
are never rejected are either inputs nobody reads or a hole in the specification.
"""
import collections, copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import warnings
warnings.simplefilter("ignore")
from common import *
import run


def isnum(o):
    return isinstance(o, list) and len(o) == 2 and all(isinstance(q, list) and q and all(type(w) is int for w in q) for q in o) \
        and o[0][0] in (-1, 0, 1) and o[1][0] == 1 and len(o[1]) > 1


def perturb(o, rng, leaf):
    """perturb one random leaf of o; returns new value or None"""
    if isinstance(o, int) and not isinstance(o, bool):
        return o + 1
    if isnum(o):
        v = dec(o)
        return enc(v * Fraction(1001, 1000) if v else Fraction(1, 100))
    if type(o) is bool:
        return not o
    if isinstance(o, list) and o:
        i = rng.randrange(len(o))
        n = perturb(o[i], rng, leaf)
        if n is None:
            return None
        return o[:i] + [n] + o[i + 1:]
    if isinstance(o, dict) and o:
        k = rng.choice(sorted(o))
        n = perturb(o[k], rng, leaf)
        if n is None:
            return None
        leaf.append(k)
        return dict(o, **{k: n})
    return None


def main():
    pid, cnt = sys.argv[1], int((sys.argv + ["400"])[2])
    rep = Report(pid)
    got = []
    rep.model = lambda *a, **k: type("R", (), {"out": ""})()
    real = rep.validate
    rep.validate = lambda m, t, w, **k: got.append((m, [x for x in t if x]))
    f = run.find(pid)
    import importlib
    mod = sys.modules[f.__module__]
    if hasattr(mod, "model_histories"):
        mod.model_histories = lambda *a, **k: []
    f(rep)
    rng = random.Random(7)
    for m, traces in got:
        out, tags = [], []
        while len(out) < cnt:
            t = rng.choice(traces)
            i = rng.randrange(len(t))
            f = rng.choice(sorted(k for k in t[i] if k != "op"))
            leaf = []
            n = "Invented" if f == "exc" and t[i][f] == "" else perturb(t[i][f], rng, leaf)
            if n is None:
                if rng.random() < .01:
                    cnt -= 1
                continue
            out.append(t[:i] + [dict(t[i], **{f: n})] + t[i + 1:])
            tags.append((t[i]["op"], ".".join([f] + leaf[::-1])))
        bad, live = set(), list(range(len(out)))
        while live:
            try:
                rej, _ = judge(m, [out[q] for q in live])
                bad |= set(live[a] for a, b, c in rej)
                break
            except Uninterpretable as x:
                bad.add(live.pop(x.trace))
        tot, hit = collections.Counter(tags), collections.Counter(tags[a] for a in bad)
        for k in sorted(tot):
            print("%-14s %-18s %4d / %4d %s" % (k[0], k[1], hit[k], tot[k], "" if hit[k] else "   <-- never"))


main()
