"""Development aid: mutation analysis of the checks.

usage: mutate.py OUT.jsonl [--every K] [--files a.py,b.py] [--jobs N] [--seed S]
Small syntactic mutants of REPO (env, default /repo) are run against the checks of their file until one reports a violation;
survivors are to be read by hand (equivalent? out of scope? or a hole in a check).
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
CHECKS = {"mkl.py": "S01 S04 S02 S03", "primitives.py": "S03 F01", "fdfd.py": "F01 G01 P01", "fdtd.py": "D01 G01", "grid.py": "G02 F02 G01 D01 F01",
          "utils.py": "G03 F02 K01 M01 D01 F01 C03", "mode.py": "M01 M02 V01 G03 G01", "sim.py": "P01 M02 G01 D01 F01 O01", "opt.py": "O01", "parse.py": "P01",
          "transform.py": "T01", "viz.py": "V01", "circuit/forward.py": "C08 C04 C05 C07 C03 C06 C01 K01 C11", "circuit/coupling.py": "C10 C05 C08 C03", "typing.py": "G03 G02",
          "circuit/component.py": "C10 P01", "circuit/matrix.py": "C10 C01 C11", "circuit/rectangular.py": "C05 C10 C01", "circuit/vector.py": "C05 C02 H01 C01 C11"}


def seg(src_lines, node):
    return node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset


class Mutants(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(keepends=True)
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((n.lineno, a, b, new, what))

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.add(n, "pass", "raise removed")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "statement removed")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "augmented assignment removed")
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.MatMult: None}
        op = swap.get(type(n.op))
        if op:
            self.add(n, f"({l}) {op} ({r})", f"operator to {op}")
        if isinstance(n.op, ast.MatMult):
            self.add(n, f"({r}) @ ({l})", "matmul swapped")
        if isinstance(n.op, (ast.Mult, ast.Add)):
            self.add(n, f"({l})", "right operand dropped")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            new = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
            self.add(n, f"({self.text(n.left)} {new} {self.text(n.comparators[0])})", f"comparison to {new}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join(f"({self.text(v)})" for v in n.values) + ")", "and/or swapped")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, f"({self.text(n.operand)})", "unary operator dropped")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.text(n.body)})", "always first alternative")
        self.add(n, f"({self.text(n.orelse)})", "always second alternative")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "True", "condition always true")
        self.add(n.test, "False", "condition always false")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "flag flipped")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "constant + 1")
            if v > 0:
                self.add(n, str(v - 1), "constant - 1")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.2 + 0.01), "constant * 1.2")
        elif isinstance(v, complex):
            self.add(n, f"({-v!r})", "conjugate constant")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("conj", "copy", "squeeze", "ravel", "flatten", "sum", "real", "astype", "sort", "transpose"):
            if not (isinstance(f.value, ast.Name) and f.value.id in ("np", "jnp", "xp", "sp")):
                self.add(n, f"({self.text(f.value)})", f".{f.attr}() dropped")
        for k in n.keywords:
            if k.arg:
                parts = [self.text(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + self.text(q.value) for q in n.keywords if q is not k]
                self.add(n, f"{self.text(f)}({', '.join(parts)})", f"keyword {k.arg} dropped")
        if len(n.args) == 2 and not n.keywords and not isinstance(f, ast.Name):
            self.add(n, f"{self.text(f)}({self.text(n.args[1])}, {self.text(n.args[0])})", "arguments swapped")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == "T":
            self.add(n, f"({self.text(n.value)})", ".T dropped")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)


def mutants(path):
    src = open(path).read()
    m = Mutants(src)
    m.visit(ast.parse(src))
    for ln, a, b, new, what in m.out:
        mutated = (m.b[:a] + new.encode() + m.b[b:]).decode()
        try:
            ast.parse(mutated)
        except SyntaxError:
            continue
        yield ln, what, m.b[a:b].decode(), new, mutated


def run(job):
    rel, ln, what, old, new, text, checks, out = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    res = dict(file=rel, line=ln, what=what, old=old[:100], new=new[:100], killed=None, tried=[])
    t0 = time.time()
    try:
        os.makedirs(f"{d}/r")
        shutil.copytree(f"{REPO}/simphox", f"{d}/r/simphox")
        shutil.copytree(ROOT, f"{d}/v", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        open(f"{d}/r/simphox/{rel}", "w").write(text)
        for c in checks:
            env = dict(os.environ, VERIF_REPO=f"{d}/r", VERIF_STOP="1", VERIF_PROCS="2", VERIF_CASE_TIMEOUT="120", VERIF_DEADLINE="400")
            p = subprocess.run(["nice", "-n", "15", f"{d}/v/run.sh", c, "quick"], capture_output=True, text=True, env=env)
            res["tried"].append((c, p.returncode))
            if p.returncode != 0:
                res["killed"] = c
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["s"] = round(time.time() - t0)
    with open(out, "a") as f:
        f.write(json.dumps(res) + "\n")
    return res


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--every", type=int, default=4)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cov", default="/tmp/cov")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    cov = {}
    for f in os.listdir(a.cov):
        if f.endswith(".out"):
            cov[f[:-4]] = set(open(os.path.join(a.cov, f)).read().split())
    jobs, uncovered = [], {}
    for rel, checks in CHECKS.items():
        if a.files and rel not in a.files.split(","):
            continue
        ms = list(mutants(f"{REPO}/simphox/{rel}"))
        random.Random(a.seed).shuffle(ms)
        seen = {}
        for ln, what, old, new, text in ms:
            cs = [c for c in checks.split() if c not in cov or f"{rel}:{ln}" in cov[c]]
            if not cs:
                if not any(f"{rel}:{ln}" in s for s in cov.values()):
                    uncovered.setdefault(rel, set()).add(ln)
                cs = [c for c in cov if f"{rel}:{ln}" in cov[c]]
                if not cs:
                    continue
            seen[ln] = seen.get(ln, 0) + 1
            jobs.append((rel, ln, what, old, new, text, cs, a.out))
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[::a.every]
    print(len(jobs), "mutants; lines with mutants no check reaches:", {k: sorted(v) for k, v in uncovered.items()})
    if a.list:
        sys.exit()
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"], r["old"]))
    jobs = [j for j in jobs if (j[0], j[1], j[2], j[3][:100]) not in done]
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(run, jobs):
            if not r["killed"]:
                print("SURVIVED", r["file"], r["line"], r["what"], "|", r["old"][:80], "=>", r["new"][:80], flush=True)
