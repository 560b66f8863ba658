"""Error sensitivity (Hessian) of vector units."""
import itertools
import numpy as np
from mc import refc

ASSUMPTIONS = ["reference: second central differences (step 2e-3) of the product of 2x2 matrices; tolerance 2e-4"]
AL = [1, 1j, -2, 0.5 - 0.5j, 0]


def BOUNDS(tier):
    return (f"all vectors over {{1, i, -2, 0.5-0.5i, 0}} of length 2 and 3, every 37th of length 4, every 401st of length 5"
            f"{' and every 3001st of lengths 6 and 7' if tier != 'quick' else ''}, single vectors of 9 to 16 (thorough 20) entries, real and integer ones among them, x balanced/linear")


def cases(tier, seed):
    steps = {2: (1, 1), 3: (1, 3), 4: (37, 3), 5: (401, 3), 6: (5003, 3), 7: (25013, 3)} if tier == "quick" else \
        {2: (1, 1), 3: (1, 4), 4: (5, 8), 5: (37, 8), 6: (401, 8), 7: (3001, 8), 8: (40009, 8)}
    return [{"n": n, "step": s, "part": p, "parts": q} for n, (s, q) in steps.items() for p in range(q)] + [{"n": n, "large": True} for n in ((9, 12, 16) if tier == "quick" else (9, 10, 11, 12, 15, 16, 17, 20))]


def large(n, seed):
    """Longer vectors, and other types of numbers."""
    x = refc.generic(n + seed, n, lo=0.3, hi=1.2) * np.exp(1j * refc.generic(n + 70, n, hi=6.2))
    return [x, np.where(np.arange(n) % 3 == 1, 0, x), 1 + np.arange(n), np.cos(1 + np.arange(n)), np.eye(n)[n // 2]]


def hess(m, v):
    th, ph, ga = m.params
    k = len(th)
    sp = refc.spec(m)

    def f(x):
        u = refc.circuit(m.n, sp, x[:k], x[k:], ga)
        return 2 - 2 * np.real(u[-1] @ v.conj())
    x0, h = np.hstack([th, ph]), 2e-3
    e = np.eye(2 * k) * h
    out = np.zeros((2 * k, 2 * k))
    for i in range(2 * k):
        for j in range(i + 1):
            out[i, j] = out[j, i] = (f(x0 + e[i] + e[j]) + f(x0 - e[i] - e[j]) - f(x0 + e[i] - e[j]) - f(x0 - e[i] + e[j])) / (4 * h * h)
    grad = np.array([(f(x0 + d) - f(x0 - d)) / (2 * h) for d in e])
    return out, grad


def run(case, ck):
    import simphox.circuit as sc
    from simphox.circuit.vector import hessian_vector_unit, hessian_fd
    n = case["n"]
    if "large" in case:
        vs = large(n, ck.seed)
    else:
        vs = (np.array(v, complex) for i, v in enumerate(itertools.islice(itertools.product(AL, repeat=n), 0, None, case["step"])) if i % case["parts"] == case["part"])
    for v in vs:
        if not np.any(v):
            continue
        u = v / np.linalg.norm(v)
        for bal in (True, False):
            ck.state(v.tobytes(), bal)
            m = sc.balanced_tree(u) if bal else sc.unbalanced_tree(u)
            want, grad = hess(m, u)
            given = v.copy()
            got = hessian_vector_unit(given, bal)
            ck.trans()
            ck.check(np.array_equal(given, v), "the vector was changed", key="input")
            label = f"{v.tolist()} {'balanced' if bal else 'linear'}"
            ck.close(grad, np.zeros(2 * n - 2), f"gradient at the programmed phases of {label}", 2e-4, key="gradient")
            ck.close(got, want, f"Hessian of {label}", 2e-4, key="hessian")
            ck.check(np.linalg.eigvalsh((got + got.T) / 2).min() > -1e-6, f"Hessian of {label} is not positive", key="positive")
            ck.check(np.allclose(got, got.T), f"Hessian of {label} is not symmetric", key="symmetric")
            # powers at the nodes
            ck.outcome(np.round(got, 4).tobytes())
            ck.trace()
            if n <= 4:
                fd = hessian_fd(v, error=1e-2, balanced=bal)
                ck.trans()
                ck.close(np.real(fd), want, f"finite difference Hessian of {label}", 1.5e-2, key="fd")
    ck.sample({"n": n, "vector": [str(q) for q in v]})
