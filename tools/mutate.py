"""development tool: mechanical mutants of bcause; which survive the repository's tests, and which of those no check reports.
mutate.py gen OUT.json [n] [seed]        sample n mutants (file, start, end, replacement) in functions reached by some check
mutate.py run OUT.json RES.jsonl [procs] tests each mutant, then runs the quick checks that execute the mutated line until one reports
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
REPO, PY = "/repo", "/opt/venv/bin/python"
LINES = os.environ.get("LINES_DIR", "/tmp/lines")


def reach():
    r = {}
    for f in glob.glob(LINES + "/C*.json"):
        for k, ls in json.load(open(f)).items():
            for l in ls:
                r.setdefault((k, l), set()).add(os.path.basename(f)[:-5])
    return r


def offsets(src):
    o, t = [0], 0
    for l in src.splitlines(keepends=True):
        t += len(l.encode())
        o.append(t)
    return o


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.b, self.o, self.out, self.fn = src.encode(), offsets(src), [], 0

    def seg(self, n):
        return self.b[self.pos(n.lineno, n.col_offset):self.pos(n.end_lineno, n.end_col_offset)].decode()

    def pos(self, l, c):
        return self.o[l - 1] + c

    def add(self, n, new, kind):
        if self.fn and self.seg(n) != new:
            self.out.append((n.lineno, self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset), new, kind))

    def visit_FunctionDef(self, n):
        self.fn += 1
        for s in n.body:
            self.visit(s)
        self.fn -= 1

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and self.seg(n.test).startswith("__name__"):
            return
        self.add(n.test, f"(not ({self.seg(n.test)}))", "negate-if")
        if not n.orelse and all(isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign, ast.Raise)) for s in n.body):
            self.add(n.test, "False", "if-false")
            self.add(n.test, "True", "if-true")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), "ifexp-body")
        self.add(n, self.seg(n.orelse), "ifexp-else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a, b = self.seg(n.left), self.seg(n.comparators[0])
            for o in {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), []):
                self.add(n, f"{a} {o} {b}", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for k in range(len(n.values)):
            rest = [self.seg(v) for j, v in enumerate(n.values) if j != k]
            self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop-condition")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f"bool({self.seg(n.operand)})", "drop-not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.seg(n.left), self.seg(n.right)
        for o in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Pow: []}.get(type(n.op), []):
            if not (isinstance(n.left, (ast.JoinedStr,)) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.add(n, f"{a} {o} {b}", "arith")
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, a, "drop-operand")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "const")
        elif isinstance(n.value, float) and n.value == n.value:
            self.add(n, repr(n.value + .5), "const")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("sorted", "reversed", "list", "set", "dict", "abs", "tuple") and len(n.args) == 1:
            self.add(n, f"({self.seg(n.args[0])})", "unwrap-" + f.id)
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy", "flatten", "ravel", "transpose", "sort_index", "astype", "dropna", "reset_index", "drop_duplicates", "to_multinomial", "swapaxes"):
            if isinstance(f.value, ast.Name) and f.value.id in ("np", "copy", "math") and n.args:
                self.add(n, self.seg(n.args[0]), "unwrap-call")
            else:
                self.add(n, self.seg(f.value), "unwrap-call")
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            self.add(n, f"{self.seg(f)}({self.seg(n.args[1])}, {self.seg(n.args[0])})", "swap-args")
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1 and not isinstance(f, ast.Name):
                parts = [self.seg(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + self.seg(q.value) for q in n.keywords if q is not k]
                self.add(n, f"{self.seg(f)}({', '.join(parts)})", "drop-keyword")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.add(c, "True", "drop-filter")
        self.generic_visit(n)

    def visit_Slice(self, n):
        for q in (n.lower, n.upper):
            if q is not None:
                self.add(q, f"({self.seg(q)})+1", "slice")
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def stmt(self, n):
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.stmt(n)

    visit_AugAssign = visit_Raise = stmt

    def visit_Assert(self, n):
        self.stmt(n)

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_For(self, n):
        it = self.seg(n.iter)
        self.add(n.iter, f"list({it})[1:]", "skip-first")
        self.add(n.iter, f"list({it})[:-1]", "skip-last")
        self.generic_visit(n)


def gen(out, n, seed):
    r = reach()
    ms = []
    for root, _, fs in os.walk(REPO + "/bcause"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith(".py") or f in ("plotutils.py", "watch.py", "btreestore.py", "btreeops.py"):
                continue
            src = open(p).read()
            v = V(src)
            v.visit(ast.parse(src))
            for l, a, b, new, kind in v.out:
                cs = r.get((rel, l))
                m = src.encode()[:a] + new.encode() + src.encode()[b:]
                try:
                    ast.parse(m)
                except SyntaxError:
                    continue
                if cs:
                    ms.append(dict(file=rel, line=l, a=a, b=b, old=src.encode()[a:b].decode(), new=new, kind=kind, checks=sorted(cs)))
    print(len(ms), "mutants on reached lines")
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    json.dump(ms[:n], open(out, "w"))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
COST = {}


def one(m, d, checks_first=()):
    p = f"{d}/{m['file']}"
    b = open(f"{REPO}/{m['file']}", "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
    try:
        c = subprocess.run([PY, "-c", "import sys; sys.path.insert(0, '.'); import bcause, bcause.inference.causal.multi, bcause.learning.aggregator.aggregator"], cwd=d, env=ENV, capture_output=True, timeout=60)
        if c.returncode:
            return dict(m, result="import fails")
        try:
            t = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore", "--deselect", "tests/test_multinomial.py::test_sampling", "--timeout=120"], cwd=d, env=ENV, capture_output=True, text=True, timeout=240)
        except subprocess.TimeoutExpired:
            return dict(m, result="tests time out")
        if t.returncode:
            return dict(m, result="tests fail")
        ran = []
        for c in m["checks"]:
            try:
                r = subprocess.run([H + "/check", c, "quick", "--no-evidence"], cwd=H, env=dict(os.environ, RVM_REPO=d, PYTHONPATH=d), capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 9
            ran.append([c, rc])
            if rc == 1:
                msg = [l for l in r.stdout.splitlines() if l.strip().startswith("case")]
                return dict(m, result="caught", by=c, ran=ran, msg=msg[:1])
        return dict(m, result="SURVIVED", ran=ran)
    finally:
        open(p, "wb").write(b)


def run(inp, out, procs):
    from queue import Queue
    ms = json.load(open(inp))
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["a"], x["b"], x["new"]) for x in map(json.loads, open(out))}
    dirs = Queue()
    all_d = []
    for k in range(procs):
        d = tempfile.mkdtemp(prefix=f"mut_{k}_", dir="/tmp")
        subprocess.run(f"git -C {REPO} archive HEAD | tar x -C {d}", shell=True, check=True)
        dirs.put(d)
        all_d.append(d)
    # checks in order of how many mutated lines they are specific to: fewest lines reached first
    spread = {}
    for m in ms:
        for c in m["checks"]:
            spread[c] = spread.get(c, 0) + 1

    def job(m):
        if (m["file"], m["a"], m["b"], m["new"]) in done:
            return
        d = dirs.get()
        try:
            m = dict(m, checks=sorted(m["checks"], key=lambda c: (spread[c], c)))
            r = one(m, d)
        except Exception as e:
            r = dict(m, result=f"error {e!r}")
        finally:
            dirs.put(d)
        with open(out, "a") as f:
            f.write(json.dumps(r) + "\n")

    try:
        with ThreadPoolExecutor(procs) as ex:
            list(ex.map(job, ms))
    finally:
        for d in all_d:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 3)
