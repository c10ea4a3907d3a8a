"""Interposer: every outermost call of a public qetpy routine is recorded together with
digests of all arrays the caller holds (arguments so far, results so far)."""
import functools, hashlib, inspect, sys
import numpy as np

LIMIT = 14            # arrays kept alive per kind


def digest(o, depth=0):
    """digest of everything in o that a callee could modify; None if there is nothing"""
    if isinstance(o, np.ndarray):
        h = hashlib.blake2b(digest_size=6)
        b = o
        while True:
            h.update(("%s%s" % (b.dtype.str, b.shape)).encode())
            h.update(np.array(b, order="K", copy=True).tobytes("A") if b.dtype != object else repr(b.tolist()).encode())
            if not isinstance(b.base, np.ndarray):
                break
            b = b.base
        return h.hexdigest()
    if depth > 4:
        return None
    if isinstance(o, (list, tuple)):
        if isinstance(o, tuple) and not any(isinstance(v, (np.ndarray, list, dict)) for v in o):
            return None
        return _sum([type(o).__name__] + [digest(v, depth + 1) or _atom(v) for v in o])
    if isinstance(o, dict):
        return _sum(["d"] + [str(k) + "=" + (digest(v, depth + 1) or _atom(v)) for k, v in o.items()])
    if type(o).__module__.startswith("qetpy"):
        return _sum(["o"] + [str(k) + "=" + (digest(v, depth + 1) or _atom(v)) for k, v in sorted(vars(o).items())
                             if isinstance(v, (np.ndarray, list, dict, tuple))])
    return None


def _atom(v):
    return repr(v) if isinstance(v, (int, float, complex, str, bool, type(None), np.generic)) else type(v).__name__


def _sum(parts):
    return hashlib.blake2b("|".join(parts).encode(), digest_size=6).hexdigest()


class Spy:
    MAY = {"fill_negatives": ["arr"]}

    def __init__(self):
        self.depth, self.traces, self.saved, self.total = 0, [], [], {}
        self.begin()

    def begin(self):
        self.live, self.ev, self.serial = {}, [], 0

    def end(self):
        if self.ev:
            self.traces.append(self.ev)
        self.begin()

    # ------------------------------------------------------------- memory
    def key(self, o):
        for k, v in self.live.items():
            if v is o:
                return k
        return None

    def add(self, o, name, kind):
        if self.key(o) is not None or digest(o) is None:
            return self.key(o)
        self.serial += 1
        k = "%s %s #%d" % (kind, name, self.serial)
        self.live[k] = o
        same = [q for q in self.live if q.startswith(kind + " ")]
        if len(same) > LIMIT:
            del self.live[same[0]]
        return k

    def now(self):
        return {k: digest(v) for k, v in self.live.items()}

    # --------------------------------------------------------------- calls
    def wrap(self, fn, name, method):
        try:
            sig = inspect.signature(fn)
        except (TypeError, ValueError):
            return fn
        may = self.MAY.get(name, [])

        @functools.wraps(fn)
        def w(*a, **k):
            if self.depth:
                return fn(*a, **k)
            self.depth = 1
            if len(self.ev) >= 80:
                self.end()
            try:
                own = {}
                try:
                    items = []
                    for p, v in sig.bind(*a, **k).arguments.items():
                        kind = sig.parameters[p].kind
                        if kind == inspect.Parameter.VAR_KEYWORD:
                            items += list(v.items())
                        elif kind == inspect.Parameter.VAR_POSITIONAL:
                            items += [("%s%d" % (p, i), q) for i, q in enumerate(v)]
                        else:
                            items.append((p, v))
                except TypeError:
                    items = [("arg%d" % i, v) for i, v in enumerate(a)] + list(k.items())
                for i, (p, v) in enumerate(items):
                    if method and i == 0:
                        continue
                    own[p] = self.add(v, name + "." + p, "argument")
                self.ev.append(dict(op="own", set=self.now()))
                out = None
                try:
                    out = fn(*a, **k)
                    return out
                finally:
                    # the in-place exception covers the array and everything that shares its memory
                    names = [own[p] for p in may if own.get(p)]
                    arrs = [self.live[q] for q in names if q in self.live and isinstance(self.live[q], np.ndarray)]
                    names += [q for q, v in self.live.items() if q not in names and isinstance(v, np.ndarray)
                              and any(np.may_share_memory(v, s) for s in arrs)]
                    e = dict(op="call", fn=name, may=names, now=self.now())
                    for r in (out if isinstance(out, (tuple, list)) else [out]):
                        if isinstance(r, (np.ndarray, dict, list)):
                            q = self.add(r, name, "result")
                            if q is not None:
                                e["now"][q] = digest(r)
                    e["now"] = {q: d for q, d in e["now"].items()}
                    self.ev.append(e)
                    self.total[name] = self.total.get(name, 0) + 1
            finally:
                self.depth = 0
        return w

    def install(self):
        mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "qetpy" or n.startswith("qetpy."))]
        users = mods + [m for n, m in list(sys.modules.items()) if n.startswith("chk_") or n == "drv_of"]
        done = {}
        for m in mods:
            for n, o in list(vars(m).items()):
                home = getattr(o, "__module__", "") or ""
                if not home.startswith("qetpy") or home.startswith("qetpy.plotting"):
                    continue
                if inspect.isclass(o) and o not in done:
                    done[o] = None
                    for q, f in list(vars(o).items()):
                        if q.startswith("_") and q != "__init__":
                            continue
                        name = o.__name__ + ("" if q == "__init__" else "." + q)
                        if inspect.isfunction(f):
                            self.saved.append((o, q, f))
                            setattr(o, q, self.wrap(f, name, True))
                        elif isinstance(f, staticmethod):
                            self.saved.append((o, q, f))
                            setattr(o, q, staticmethod(self.wrap(f.__func__, name, False)))
                elif inspect.isfunction(o) and not o.__name__.startswith("_") and o not in done:
                    done[o] = self.wrap(o, o.__name__, False)
        for m in users:
            for n, o in list(vars(m).items()):
                if inspect.isfunction(o) and done.get(o) is not None:
                    self.saved.append((m, n, o))
                    setattr(m, n, done[o])

    def remove(self):
        for o, n, f in reversed(self.saved):
            setattr(o, n, f)
        self.saved = []
