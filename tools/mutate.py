"""tools/mutate.py FILE CHECKS N [SEED] [JOBS] [FUNC,...]: N random small changes to one module of the package, in scratch copies;
prints those which none of CHECKS rejects (to be looked at: equivalent, or a hole in a check)."""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, checks, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 4
only = sys.argv[6].split(",") if len(sys.argv) > 6 else None
src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
tree = ast.parse(src)
off = [0]
for l in src.splitlines(True):
    off.append(off[-1] + len(l.encode()))
B = src.encode()
span = lambda x: (off[x.lineno - 1] + x.col_offset, off[x.end_lineno - 1] + x.end_col_offset)
text = lambda x: B[span(x)[0]:span(x)[1]].decode()
OUT = []
PLOTS = "plot" in f
COSMETIC = {"fontsize", "figsize", "alpha", "lw", "linewidth", "color", "c", "ls", "linestyle", "marker", "ms", "markersize", "loc", "top", "bbox_to_anchor",
            "borderaxespad", "zorder", "pad", "which", "dpi", "bbox_inches", "bbox_extra_artists", "cmap", "capsize", "y", "elinewidth", "ncol", "prop"}


def put(x, new, why):
    a, b = span(x)
    OUT.append((x.lineno, why, (a, b, new)))


def sub(x, l, r, sep):
    put(x, "(%s)%s(%s)" % (text(l), sep, text(r)), sep)


def skip(t):
    if PLOTS:
        return "print(" in t or any(w in t for w in ("plt.grid", "tight_layout", "tick_params", "subplots_adjust", ".grid(", "savefig", "cmap", "cm."))
    return any(w in t for w in ("plt.", "print(", "lgcplot", "ax.", "fig", "lgcdiag", "label"))


def walk(x, fn):
    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
        fn = x.name if isinstance(x, ast.FunctionDef) else fn
        if only and isinstance(x, ast.FunctionDef) and x.name not in only:
            return
        if "plot" in x.name.lower() and not PLOTS:
            return
        for y in x.body:
            if not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant)):
                walk(y, fn)
        return
    if isinstance(x, ast.stmt) and not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and skip(text(x)):
        return
    if not PLOTS and isinstance(x, (ast.If,)) and "lgcplot" in text(x.test):
        return
    if isinstance(x, (ast.Raise, ast.Import, ast.ImportFrom)):
        return
    if isinstance(x, ast.BinOp):
        o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}.get(type(x.op))
        if o:
            sub(x, x.left, x.right, o)
    if isinstance(x, ast.Compare) and len(x.ops) == 1:
        o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(x.ops[0]))
        if o:
            sub(x, x.left, x.comparators[0], " %s " % o)
    if isinstance(x, ast.BoolOp):
        o = " or " if isinstance(x.op, ast.And) else " and "
        put(x, o.join("(%s)" % text(v) for v in x.values), o)
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
        put(x, "(%s)" % text(x.operand), "drop -")
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
        put(x, "(%s)" % text(x.operand), "drop not")
    if isinstance(x, ast.Constant) and type(x.value) in (int, float):
        put(x, repr(x.value + 1) if type(x.value) is int else repr(x.value * 1.05 if x.value else .05), "const")
    if isinstance(x, ast.Constant) and type(x.value) is bool:
        put(x, repr(not x.value), "bool")
    if isinstance(x, ast.Call):
        t = text(x.func)
        if t.endswith(".copy") and not x.args:
            put(x, "(%s)" % text(x.func.value), "drop copy")
        if t in ("np.conj", "np.abs", "abs", "np.real", "np.sqrt", "np.copy", "np.squeeze", "np.array", "np.asarray", "int", "np.rint", "round") and x.args:
            put(x, "(%s)" % text(x.args[0]), "drop " + t)
        for a, b in (("argmin", "argmax"), ("np.mean", "np.median"), ("np.std", "np.var"), ("np.amin", "np.amax"), ("ceil", "floor"), ("min", "max")):
            if t.endswith(a):
                put(x.func, t[:-len(a)] + b, b)
        for k in x.keywords:
            if k.arg and not (PLOTS and k.arg in COSMETIC):
                a, b = span(x)
                s = B[a:b]
                ka = off[k.value.lineno - 1] + k.value.col_offset - a
                kb = off[k.value.end_lineno - 1] + k.value.end_col_offset - a
                st = s.rfind(k.arg.encode(), 0, ka)
                e = kb
                while e < len(s) and s[e:e + 1] in b" \n":
                    e += 1
                if s[e:e + 1] == b",":
                    e += 1
                OUT.append((x.lineno, "drop kw " + k.arg, (a + st, a + e, "")))
        if len(x.args) == 2 and t not in ("range", "np.arange") and random.random() < .3:
            pass
    if isinstance(x, (ast.If, ast.IfExp, ast.While)) and not isinstance(x, ast.While):
        put(x.test, "(not (%s))" % text(x.test), "negate")
    if isinstance(x, (ast.Assign, ast.AugAssign)) and isinstance(x, ast.AugAssign) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)) \
            or (isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Attribute, ast.Subscript))):
        put(x, "pass", "delete")
    for y in ast.iter_child_nodes(x):
        if PLOTS and isinstance(y, ast.keyword) and y.arg in COSMETIC:
            continue
        walk(y, fn)


for y in tree.body:
    if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
        walk(y, "")
rng = random.Random(seed)
rng.shuffle(OUT)
print(len(OUT), "mutants; trying", n, flush=True)


def one(m):
    ln, why, (a, b, new) = m
    s = (B[:a] + new.encode() + B[b:]).decode()
    try:
        compile(s, f, "exec")
    except SyntaxError:
        return None
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.run("git -C /repo archive HEAD qetpy | tar -x -C " + d, shell=True, check=True)
        open(d + "/" + f, "w").write(s)
        for c in checks:
            r = subprocess.run(["timeout", "300", "bash", V + "/bin/check", c, "quick"], env=dict(os.environ, PYTHONPATH=d, VERIF_EVID=d + "/evid"), capture_output=True, text=True)
            if r.returncode == 1:
                return m, c
            if r.returncode not in (0, 124):
                return m, "rc%d" % r.returncode
        return m, None
    finally:
        shutil.rmtree(d)


k = [0, 0]
with ThreadPoolExecutor(jobs) as ex:
    for res in ex.map(one, OUT[:n]):
        if res is None:
            continue
        (ln, why, (a, b, new)), c = res
        k[0] += 1
        k[1] += c is not None
        if c is None or c.startswith("rc"):
            print("SURVIVES" if c is None else c, "%s:%d" % (f.split("/")[-1], ln), why, "|", " ".join(B[a:b].decode().split())[:100], "->", " ".join(new.split())[:100], flush=True)
print("tried", k[0], "caught", k[1])
