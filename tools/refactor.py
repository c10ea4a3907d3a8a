"""tools/refactor.py VARIANT [CHECKS] [JOBS] [SEED]: the whole package rewritten without changing what it does, in a scratch copy; prints the checks that object.
VARIANT: struct (operands of commutative operations and comparisons exchanged, branches exchanged behind a negation, results named
before they are returned, function bodies moved into helpers) or ulp (products and sums reassociated, squares as products:
equal up to rounding).  CHECKS: comma-separated, default all.  The checks have to stay quiet."""
import ast, glob, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
var = sys.argv[1]
checks = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else ["C%02d" % i for i in range(1, 32)]
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 2
rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
K = {}


def did(w):
    K[w] = K.get(w, 0) + 1


class T(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if var == "struct" and isinstance(n.op, ast.Mult):
            did("swap *")
            return ast.BinOp(n.right, n.op, n.left)
        if var == "ulp" and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Div):
            did("a/b*c -> a*c/b")
            return ast.BinOp(ast.BinOp(n.left.left, ast.Mult(), n.right), ast.Div(), n.left.right)
        if var == "ulp" and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.) \
                and isinstance(n.left, (ast.Name, ast.Attribute)):
            did("x**2 -> x*x")
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if var == "ulp" and isinstance(n.op, ast.Sub) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Add):
            did("a+b-c -> a-c+b")
            return ast.BinOp(ast.BinOp(n.left.left, ast.Sub(), n.right), ast.Add(), n.left.right)
        if var == "ulp" and isinstance(n.op, ast.Div) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Div):
            did("a/b/c -> a/c/b")
            return ast.BinOp(ast.BinOp(n.left.left, ast.Div(), n.right), ast.Div(), n.left.right)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if var == "struct" and len(n.ops) == 1 and type(n.ops[0]) in o:
            did("flip comparison")
            return ast.Compare(n.comparators[0], [o[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if var == "struct" and n.orelse:
            did("exchange branches")
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if var == "struct" and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            did("name the result")
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        a = n.args
        if var != "struct" or n.name.startswith("__") and n.name != "__init__" or a.posonlyargs or any(isinstance(x, (ast.Yield, ast.Nonlocal, ast.Global)) for x in ast.walk(n)):
            return n
        doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = n.body[len(doc):]
        if not body:
            return n
        names = [x.arg for x in a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        did("helper")
        h = ast.FunctionDef("_body", ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body, [], None)
        h.type_params = []
        n.body = doc + [h, ast.Return(ast.Call(ast.Name("_body", ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
        return n


d = tempfile.mkdtemp(prefix="refac.")
try:
    subprocess.run("git -C /repo archive HEAD qetpy | tar -x -C " + d, shell=True, check=True)
    for f in glob.glob(d + "/qetpy/**/*.py", recursive=True):
        t = T().visit(ast.parse(open(f).read()))
        open(f, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
    print(K, flush=True)

    def one(c):
        r = subprocess.run(["timeout", "900", "bash", V + "/bin/check", c, "quick"], env=dict(os.environ, PYTHONPATH=d, VERIF_EVID=d + "/evid" + c), capture_output=True, text=True)
        if r.returncode or "VIOLATION" in r.stdout:
            print(c, "rc", r.returncode, [l[:300] for l in (r.stdout + r.stderr).splitlines() if "VIOL" in l or "Error" in l][:3], flush=True)
        return r.returncode

    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, checks))
    print("quiet", rs.count(0), "of", len(rs))
    if "KEEP" in os.environ:
        print("kept", d)
finally:
    if "KEEP" not in os.environ:
        shutil.rmtree(d)
