"""Shared machinery: exact encoding of floats, TLC runs, verdicts, evidence."""
import json, math, os, random, re, shutil, subprocess, sys, tempfile, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
REPO = os.environ.get("VERIF_REPO", "/repo")
B = 10000


class MachineryError(Exception):
    pass


class Uninterpretable(MachineryError):
    """TLC could not evaluate a clause on recorded values (wrong shapes or kinds)"""

    def __init__(self, msg, trace, event):
        MachineryError.__init__(self, msg)
        self.trace, self.event = trace, event


# --------------------------------------------------------------- encoding
def zenc(n):
    n = int(n)
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, r = divmod(n, B)
        out.append(r)
    return out


def enc(x):
    """exact rational encoding of a number; non-finite -> one-element marker"""
    if isinstance(x, Fraction):
        return [zenc(x.numerator), zenc(x.denominator)]
    if isinstance(x, (bool,)):
        x = int(x)
    if isinstance(x, int):
        return [zenc(x), [1, 1]]
    try:
        x = x.item()
    except (AttributeError, ValueError):
        pass
    if isinstance(x, complex):
        return ["complex"]
    if isinstance(x, (int, bool)):
        return [zenc(int(x)), [1, 1]]
    try:
        x = float(x)
    except Exception:
        return ["notanumber"]
    if math.isnan(x):
        return ["nan"]
    if math.isinf(x):
        return ["inf" if x > 0 else "-inf"]
    n, d = x.as_integer_ratio()
    return [zenc(n), zenc(d)]


def cenc(z):
    import numpy as np
    try:
        return [enc(float(np.real(z))), enc(float(np.imag(z)))]
    except Exception:
        return [["notanumber"], ["notanumber"]]


def vec(a):
    import numpy as np
    try:
        a = np.asarray(a)
        if a.dtype == object and a.ndim == 0:
            return ["notavector"]
        return [enc(x) for x in a.ravel().tolist()]
    except Exception:
        return ["notavector"]


def cvec(a):
    import numpy as np
    return [cenc(x) for x in np.asarray(a).ravel()]


def mat(a):
    import numpy as np
    return [vec(r) for r in np.asarray(a)]


def cmat(a):
    import numpy as np
    return [cvec(r) for r in np.asarray(a)]


def counts(rng, a, p=.25):
    """now and then the same values as integers (raw ADC counts), when they are whole"""
    import numpy as np
    a = np.asarray(a, float)
    if rng.random() < p and np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 30):
        return a.astype(rng.choice([np.int64, np.int64, np.int32]))
    return a


def shape(a):
    import numpy as np
    return [int(k) for k in np.shape(a)]


def dec(r):
    if len(r) == 1:
        return r[0]
    def z(l):
        v = 0
        for d in reversed(l[1:]):
            v = v * B + d
        return l[0] * v
    return Fraction(z(r[0]), z(r[1]))


def pretty(o):
    """decode encoded rationals inside a JSON structure for human eyes"""
    if isinstance(o, dict):
        return {k: pretty(v) for k, v in o.items()}
    if isinstance(o, list):
        if (len(o) == 2 and all(isinstance(q, list) and q and all(isinstance(w, int) for w in q) for q in o)
                and o[1][0] == 1 and len(o[1]) > 1 and o[0][0] in (-1, 0, 1)):
            try:
                return float(dec(o))
            except Exception:
                return o
        return [pretty(v) for v in o]
    return o


# ------------------------------------------------------------------- build
def classes():
    """compile the BigInteger overrides (idempotent), return the class dir"""
    d = os.path.join(VERIF, "build", "classes")
    src = os.path.join(VERIF, "java", "Ov.java")
    if os.path.exists(os.path.join(d, "Ov.class")) and \
            os.path.getmtime(os.path.join(d, "Ov.class")) >= os.path.getmtime(src):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(["javac", "-cp", TLAJAR, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac failed: " + r.stderr)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(d, f))
    os.rmdir(tmp)
    return d


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0 and "Model checking completed. No error" in self.out


def tlc(module, cfg, env=None, workers=8, timeout=800, args=(), specdir=SPEC):
    cp = classes()
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx12g",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides" + os.pathsep + "Ov",
           "-DTLA-Library=" + specdir,
           "-cp", cp + ":" + TLAJAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-config", cfg, *args,
           module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=specdir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(r.stdout + r.stderr, r.returncode)


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)


def judge(module, traces, cfg=None, workers=8, timeout=800, env=None):
    """Validate recorded traces against a trace specification.

    traces: list of lists of events.  Returns (rejections, TLCResult);
    a rejection is (trace index, event index, failing clauses).
    """
    tmp = tempfile.mkdtemp(prefix="judge.")
    try:
        f = os.path.join(tmp, "traces.json")
        with open(f, "w") as fh:
            json.dump(traces, fh, separators=(",", ":"))
        e = {"TRACE_FILE": f}
        e.update(env or {})
        r = tlc(module, cfg or module + ".cfg", env=e, workers=workers, timeout=timeout)
        rej = []
        for m in REJ.finditer(r.out):
            rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1,
                        sorted(re.findall(r'"([^"]*)"', m.group(3)))))
        if len(rej) != r.out.count('"REJECT"'):
            raise MachineryError("unparsed rejections of %s\n%s" % (module, r.out[-3000:]))
        want = sum(len(t) + 1 for t in traces)
        if not r.ok and "OutOfMemory" not in r.out and "StackOverflow" not in r.out and \
                ("threw an unexpected exception" in r.out or "The error occurred when TLC was evaluating" in r.out):
            t = re.findall(r"/\\ tr = (\d+)", r.out)
            l = re.findall(r"/\\ l = (\d+)", r.out)
            if t and l:
                k = r.out.index("Error:")
                raise Uninterpretable(r.out[k:k + 600], int(t[-1]) - 1, int(l[-1]))
        if not r.ok or r.distinct != want:
            with open("/tmp/tlc_fail_%s.txt" % module, "w") as fh:
                fh.write(r.out)
            raise MachineryError("TLC did not consume the traces of %s (%d of %d states)\n%s"
                                 % (module, r.distinct, want, r.out[-6000:]))
        return sorted(set((a, b, tuple(c)) for a, b, c in rej)), r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ verdicts
def known_findings():
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        with open(f) as fh:
            lines = fh.read().splitlines()
        for line in lines:
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


class Hang(Exception):
    pass


HANGS = []


OWN = []          # non-empty: what a call returns belongs to its caller, who overwrites it before the next call
LEFT = []


def returned(x, depth=0):
    """the arrays in a result"""
    import numpy as np
    if isinstance(x, np.ndarray):
        LEFT.append(x)
    elif isinstance(x, (list, tuple)) and depth < 2 and len(x) < 50:
        for y in x:
            returned(y, depth + 1)
    elif isinstance(x, dict) and depth < 2:
        returned(list(x.values()), depth)


def overwrite():
    for a in LEFT:
        if a.ndim and a.flags.writeable and a.size and a.dtype.kind in "fciub":
            a[...] = ~a if a.dtype.kind == "b" else a[::-1].copy() * 3 + 7
    LEFT.clear()


def call(f, limit=60, own=False):
    """run f() on the real code; return (result, '' or the exception's type name)"""
    import signal, warnings
    import numpy as np
    overwrite()

    def alarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    k = len(HANGS)                                   # one hang is reported; do not wait long for the next ones
    signal.setitimer(signal.ITIMER_REAL, limit if k == 0 else min(limit, 10 if k < 4 else 2 if k < 14 else .2))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                res = f()
        if OWN or own:
            returned(res)
        return res, ""
    except Hang:
        HANGS.append(1)
        return None, "Hang"
    except Exception as ex:          # noqa: any exception is an observation
        return None, type(ex).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def sc(x):
    import numpy as np
    try:
        return enc(x) if np.ndim(x) == 0 else ["notascalar"]
    except Exception:
        return ["notascalar"]


NONE = ["none"]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.tier, self.seed = TIER, SEED
        self.quick = TIER != "thorough"
        self.rng = random.Random("%s/%s" % (SEED, pid))
        self.states = self.transitions = self.traces = self.events = 0
        self.mc_states = self.mc_transitions = 0
        self.mc = []
        self.bad = []           # (what, replay object)
        self.known = []
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.ops = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking of the design-level specification
    def model(self, module, cfg, workers=8, timeout=600, expect_violation=False, env=None):
        r = tlc(module, cfg, workers=workers, timeout=timeout, env=env)
        if expect_violation:
            if r.rc == 0 or "is violated" not in r.out:
                raise MachineryError("%s/%s should violate its invariant (vacuity guard)\n%s" % (module, cfg, r.out[-3000:]))
        elif not r.ok:
            raise MachineryError("%s/%s: %s" % (module, cfg, r.out[-5000:]))
        self.mc_states += r.distinct
        self.mc_transitions += r.generated
        self.mc.append(dict(spec=module, cfg=cfg, states=r.distinct, generated=r.generated,
                            expected_violation=expect_violation))
        return r

    # -- validate recorded traces
    def validate(self, module, traces, what, describe=None, chunk=None, **kw):
        traces = [t for t in traces if t]
        if not traces:
            raise MachineryError("no traces recorded for " + what)
        for t in traces:
            for e in t:
                k = e.get("op", "?")
                self.ops[k] = self.ops.get(k, 0) + 1
        self.samples.extend(pretty(random.Random(1).sample(traces, min(2, len(traces))))[:2])
        parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)] if chunk else [traces]
        for part in parts:
            try:
                rej, r = judge(module, part, **kw)
            except Uninterpretable as ex:
                i = min(ex.event, len(part[ex.trace]) - 1)
                self.bad.append((what, ["recorded values of the wrong shape or kind: " + " ".join(str(ex).split())[:300]], part[ex.trace], i))
                continue
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            self.events += sum(len(t) for t in part)
            for a, b, c in rej:
                self.reject(what, list(c), part[a], b)

    def reject(self, what, clauses, trace, idx):
        ev = trace[idx]
        for k in known_findings():
            if k.get("property") == self.pid and k.get("status", "open") == "open" and \
                    k.get("op") == ev.get("op") and set(clauses) <= set(k["clauses"]) and \
                    all(ev.get(f) == v for f, v in k.get("match", {}).items()):
                self.known.append(k)
                return
        self.bad.append((what, clauses, trace, idx))

    def broken(self, what, exc):
        self.bad.append((what, ["results could not be interpreted: " + exc], [], 0))

    def finish(self, t0):
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        cov = dict(states=self.states + self.mc_states, transitions=self.transitions + self.mc_transitions,
                   traces_validated_against_impl=self.traces, events=self.events, events_by_kind=self.ops,
                   design_models=self.mc, samples=shorten(self.samples)[:4], **self.notes)
        ev = dict(property=self.pid, tier="thorough" if not self.quick else "quick", seed=self.seed,
                  level="model_checking", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - t0, 2), violations=len(self.bad))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        seen = {}
        for k in self.known:
            seen[k["id"]] = k
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %d traces, %d events, %d states (%d in design models), %d rejected events, %.1f s" % (
            self.pid, self.traces, self.events, self.states + self.mc_states, self.mc_states, len(self.bad), time.time() - t0))
        if not self.bad:
            sys.exit(0)
        for i, (what, clauses, trace, idx) in enumerate(self.bad[:8]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as fh:
                json.dump(dict(property=self.pid, what=what, clauses=clauses, event=idx,
                               readable=pretty(trace[:idx + 1]), trace=trace), fh, indent=1)
            print("rejected: %s: %s" % (what, "; ".join(clauses)))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)))
        sys.exit(1)


def shorten(o, n=12):
    if isinstance(o, list):
        return [shorten(v) for v in o[:n]] + (["... %d more" % (len(o) - n)] if len(o) > n else [])
    if isinstance(o, dict):
        return {k: shorten(v) for k, v in o.items()}
    return o
