"""Solves in several threads do not disturb each other, under every schedule within the preemption bound."""
import itertools
import numpy as np

ASSUMPTIONS = ["scheduling points: every line of the library, every operation on a lock created by it, and before/inside/after every native call; "
               "native calls on different handles are independent, and calls on one handle must not overlap",
               "fewer preemptions than the bound"]
CORE = [("1", "2"), ("1", "3"), ("2", "1m"), ("1", "1m"), ("2", "F"), ("1", "S"), ("X", "1"), ("2", "e"), ("1", "f")]


def BOUNDS(tier):
    return ("two threads of one operation: all schedules with <= 2 preemptions for the core pairs and <= 1 for all other pairs of "
            "{solve A, solve B of the same size and pattern, solve C of another size, several right-hand sides, singular, wrong length, free, factorize}, "
            "cold and warm; two threads of two operations and three threads with <= 1 preemption" if tier == "quick" else
            "as quick with one more preemption everywhere, and two-operation threads over the whole alphabet")


def cases(tier, seed):
    d = 0 if tier == "quick" else 1
    out = []
    al = ["1", "2", "3", "1m", "S", "e", "F", "f", "X"]
    for warm in ("3", "1"):
        for a, b in CORE:
            out.append({"progs": [[a], [b]], "warm": warm, "bound": 2 + d})
        for a, b in itertools.combinations_with_replacement(al, 2):
            if (a, b) not in CORE and (b, a) not in CORE and (a in "123" or b in "123" or "1m" in (a, b)):
                out.append({"progs": [[a], [b]], "warm": warm, "bound": 1 + d})
    duo = [(["1", "1"], ["2"]), (["1", "2"], ["2", "1"]), (["1", "1m"], ["3", "1"]), (["X", "1"], ["2"]), (["1"], ["F", "2"]), (["1", "e"], ["2"])]
    for p in duo:
        out.append({"progs": [list(q) for q in p], "warm": "1", "bound": 1 + d})
    for p in (("1", "2", "3"), ("1", "2", "1"), ("1", "2", "F"), ("2", "1m", "S")):
        out.append({"progs": [[q] for q in p], "warm": "1", "bound": 1 + d})
    if d:
        for a, b, c in itertools.product(["1", "2", "3", "F"], repeat=3):
            out.append({"progs": [[a, b], [c]], "warm": "1", "bound": 2})
    # independent objects used by two threads
    out.append({"progs": [["o1"], ["o2"]], "warm": "1", "bound": 1 + d})
    return sorted(out, key=lambda c: -c["bound"] * 10 - len(c["progs"]))


def setup():
    import importlib
    for name in ("numpy", "scipy", "scipy.sparse", "scipy.sparse.linalg", "scipy.linalg", "scipy.special", "scipy.stats", "scipy.ndimage",
                 "jax", "jax.numpy", "jax.config", "jax.experimental.host_callback", "jax.example_libraries.optimizers", "jax.scipy.signal",
                 "jax.experimental.optimizers", "xarray", "pandas", "matplotlib", "matplotlib.pyplot", "holoviews", "panel", "bokeh",
                 "haiku", "optax", "pydantic", "pydantic.dataclasses", "tqdm", "shapely.geometry", "descartes"):
        try:  # everything the library may import creates its locks before ours are installed
            importlib.import_module(name)
        except Exception:
            pass
    from mc import sched
    sched.install()
    import simphox.mkl  # noqa


def rhs(n, k, cols=None):
    rs = np.random.RandomState(k)
    shape = (n,) if cols is None else (n, cols)
    return rs.randn(*shape) + 1j * rs.randn(*shape)


def world():
    import scipy.sparse as sp
    n = 6

    def m(n, k):
        rs = np.random.RandomState(k)
        return sp.diags([5 + rs.rand(n) + 1j, rs.rand(n - 1) + 0j, rs.rand(n - 1) * 1j], [0, 1, -1], format="csr")
    a, b, c = m(n, 1), m(n, 2), m(4, 3)
    return a, b, c, sp.csr_matrix(np.diag(np.r_[np.ones(n - 1), 0]).astype(complex))


def op_body(prog, mats, objs):
    from simphox import mkl
    a, b, c, s = mats

    def body():
        out = []
        for op in prog:
            try:
                if op in ("1", "2", "3"):
                    m = {"1": a, "2": b, "3": c}[op]
                    r = rhs(m.shape[0], 9)
                    out.append(("x", mkl.spsolve_pardiso(m, r)))
                elif op == "1m":
                    out.append(("x", mkl.spsolve_pardiso(a, rhs(6, 8, 2))))
                elif op == "S":
                    out.append(("x", mkl.spsolve_pardiso(s, rhs(6, 7))))
                elif op == "e":
                    out.append(("x", mkl.spsolve_pardiso(a, rhs(5, 7))))
                elif op in ("o1", "o2"):
                    out.append(("x", objs[op].solve(a if op == "o1" else b, rhs(6, 9))))
                elif op == "F":
                    mkl.pardiso.free()
                    out.append(("ok", None))
                elif op == "f":
                    mkl.pardiso.free(complete=False)
                    out.append(("ok", None))
                elif op == "X":
                    mkl.pardiso.factor(b)
                    out.append(("ok", None))
            except (RuntimeError, ValueError) as e:
                out.append(("error", type(e).__name__))
        return out
    return body


def expected(prog, mats):
    a, b, c, _ = [m.toarray() for m in mats]
    out = []
    for op in prog:
        if op in ("1", "2", "3", "o1", "o2"):
            m = {"1": a, "2": b, "3": c, "o1": a, "o2": b}[op]
            out.append(("x", np.linalg.solve(m, rhs(m.shape[0], 9))))
        elif op == "1m":
            out.append(("x", np.linalg.solve(a, rhs(6, 8, 2))))
        elif op in ("S", "e"):
            out.append(("error", None))
        else:
            out.append(("ok", None))
    return out


def run(case, ck):
    import os
    from mc import sched
    from simphox import mkl
    package = os.path.dirname(os.path.abspath(mkl.__file__)) + os.sep
    mats = world()
    want = [expected(p, mats) for p in case["progs"]]
    label = f"threads {case['progs']} with {case['warm']} factorized before"
    objs = {"o1": mkl.Pardiso(), "o2": mkl.Pardiso()}

    def make():
        w = {"1": mats[0], "3": mats[2]}[case["warm"]]
        mkl.pardiso.free()
        mkl.spsolve_pardiso(w, rhs(w.shape[0], 9))
        return [op_body(p, mats, objs) for p in case["progs"]]

    def judge(ex, count):
        ck.trans(ex.steps)
        ck.trace()
        ck.state(repr(case), tuple(ex.choices))
        sw = [i for i, c in enumerate(ex.choices) if c]
        at = f"{label}; switches at points {sw} of {len(ex.choices)}"
        ck.check(not ex.deadlock, f"deadlock: {at}", key="deadlock", choices=ex.choices)
        for r in ex.races:
            ck.fail(f"{r}: {at}", key="native race", choices=ex.choices)
        if ex.deadlock:
            from mc.core import Stop
            raise Stop()
        obs = []
        for t, (got, exp) in enumerate(zip(ex.results, want)):
            if isinstance(got, BaseException):
                ck.fail(f"thread {t} failed with {type(got).__name__}: {got}: {at}", key="exception", choices=ex.choices)
                continue
            for (k, g), (k2, e), op in zip(got, exp, case["progs"][t]):
                if k != k2:
                    ck.fail(f"operation {op} of thread {t} gives {k} {g if k == 'error' else ''} instead of {k2}: {at}", key=f"outcome {k}", choices=ex.choices)
                elif k == "x":
                    ck.close(np.asarray(g).reshape(e.shape), e, f"solution of operation {op} of thread {t}: {at}", 1e-9, key="solution", choices=ex.choices)
                obs.append(k)
        ck.outcome(tuple(obs), sum(1 for c in ex.choices if c))
        # the solver is usable afterwards
        for m in mats[:3]:
            ck.close(mkl.spsolve_pardiso(m, rhs(m.shape[0], 5)), np.linalg.solve(m.toarray(), rhs(m.shape[0], 5)),
                     f"solution after {at}", 1e-9, key="afterwards", choices=ex.choices)
        ck.count("schedules")
        if ex.diverged:
            ck.count("diverged schedules")
    sched.explore(make, case["bound"], package, judge)
    for o in objs.values():
        o.free()
    ck.sample({"threads": case["progs"], "bound": case["bound"]})
