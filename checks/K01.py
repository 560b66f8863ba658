"""Training circuits: the matrix error is a fidelity distance, and the matrix optimizer is Adam on it for every circuit and target."""
import itertools
import numpy as np
from mc import refc, circ

TOL = 1e-6
ASSUMPTIONS = ["reference: Adam (b1=0.9, b2=0.999, eps=1e-8) on central differences of the reference product of 2x2 matrices along the optimizer's own trajectory",
               "steps are compared where all gradients so far exceed 1e-3 (Adam's first steps are the sign of the gradient; the default input of a circuit is single precision)",
               "errors of zero matrices are undefined"]


def BOUNDS(tier):
    return ("all pairs of the 2x2 and 3x3 unitaries reached by gate words, scaled, lossy and rank-deficient matrices; circuits of <= 2 nodes on 3 rails and named architectures x styles x "
            "errors and losses x targets (generic, the circuit's own matrix, orthogonal to it) x step sizes x initial parameters x compiled or not, every step of short runs")


FAMILIES = (("rectangular", 2), ("rectangular", 3), ("triangular", 3), ("tree", 3), ("butterfly", 4), ("rectangular", 4))


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kind": "error", "n": n} for n in (1, 2, 3)]
    out += [{"kind": "opt", "family": f, "n": n, "style": s, "err": e} for f, n in FAMILIES for s in ("top", "bottom", "symmetric", "differential")
            for e in ("ideal", "unequal", "lossy") if not q or e == "unequal" or s in ("top", "differential")]
    n = len(list(circ.words(3, 2)))
    out += [{"kind": "words", "lo": i, "hi": i + (2 if q else 6), "style": s} for s in (("top", "differential") if q else ("top", "bottom", "symmetric", "differential"))
            for i in range(0, n, 6)]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def distance(u, v):
    """sqrt(1 - |<u, v>|^2 / |u|^2 |v|^2)"""
    return np.sqrt(max(0.0, 1 - abs(np.vdot(u, v)) ** 2 / (np.linalg.norm(u) ** 2 * np.linalg.norm(v) ** 2)))


def k_error(case, ck):
    import jax
    import jax.numpy as jnp
    from simphox.utils import normalized_error
    n = case["n"]
    us = [np.exp(0.3j) * np.eye(1), -np.eye(1)] if n == 1 else list(unitaries(n))
    others = [(f"{s} U", s * v) for v in us for s in (1, 0.9, 2j, 1e-3)]
    others += [("lossy", v @ np.diag(0.5 + 0.5 * np.arange(n) / n)) for v in us[:6]] + [("rank one", np.outer(v[0], v[-1])) for v in us[:6]]
    for i, u in enumerate(us):
        u0 = u.copy()
        fns = normalized_error(u0), normalized_error(u0, use_jax=True)
        for j, (name, v) in enumerate(others):
            ck.state(n, i, j)
            ck.trans(2)
            ck.trace()
            want = distance(u, v)
            v0 = v.copy()
            for fn, how in zip(fns, ("numpy", "jax")):
                got = np.asarray(fn(v0 if how == "numpy" else jnp.array(v0)))
                # the square root magnifies the rounding of the fidelity near a perfect match
                ck.close(got ** 2, want ** 2, f"{how} error squared of {name}", 1e-12, key=f"{how} error", n=n, i=i, j=j)
                ck.check(got.shape == () and 0 <= got <= 1, f"{how} error {got} is not in [0, 1]", key="range")
            ck.close(v0, v, "the matrix passed in", 0)
            ck.outcome(n, round(float(want), 6))
            if (i + j) % 9 == 0 or (want < 1e-6 and j % 3 == 0):
                re, im = jax.grad(lambda a, b: fns[1](a + 1j * b), argnums=(0, 1))(jnp.array(v.real), jnp.array(v.imag))
                if not ck.check(bool(np.all(np.isfinite(re)) and np.all(np.isfinite(im))), f"derivative of the error of {name} is not finite", key="derivative"):
                    continue
                if 1e-3 < want < 1 - 1e-6:
                    h = 1e-6 * np.linalg.norm(v)
                    num = np.array([[(distance(u, v + c * h * d) - distance(u, v - c * h * d)) / (2 * h) for c in (1, 1j)] for d in np.eye(n * n).reshape(-1, n, n)])
                    scale = 1 + np.max(np.abs(num))
                    ck.close(np.asarray(re).ravel() / scale, num[:, 0] / scale, f"derivative of the error of {name}", 1e-5, key="derivative")
                    ck.close(np.asarray(im).ravel() / scale, num[:, 1] / scale, f"imaginary derivative of the error of {name}", 1e-5, key="derivative")
        ck.close(u0, u, "the target passed in", 0)
    ck.sample({"n": n, "unitaries": len(us), "others": len(others)})


def unitaries(n):
    for i, (_, u) in enumerate(refc.unitary_bfs(n, 2, 40)):
        if i % (2 if n == 2 else 3) == 0:
            yield np.asarray(u, complex)


def reference(m, params):
    return refc.mesh_ref(m, params)


def cost(m, params, u):
    return distance(u, reference(m, params))


def gradient(m, params, u):
    out = []
    for i, p in enumerate(params):
        g = np.zeros_like(p)
        for k in range(len(p)):
            d = np.zeros_like(p)
            d[k] = 1e-5
            a, b = list(params), list(params)
            a[i], b[i] = p + d, p - d
            g[k] = (cost(m, a, u) - cost(m, b, u)) / 2e-5
        out.append(g)
    return out


def train(ck, m, u, label, step_size=0.1, start=None, jit=False, steps=3):
    import jax
    before = [p.copy() for p in m.params]
    u0 = u.copy()
    init, update, get_params = m.matrix_opt(u0, **({} if start is None else {"params": tuple(p.copy() for p in start)}), **({} if step_size == 0.1 else {"step_size": step_size}),
                                            **({"use_jit": True} if jit else {}))
    state = init
    want0 = before if start is None else start
    for a, b in zip(get_params(init), want0):
        ck.close(np.asarray(a), b, f"{label}: initial parameters", 1e-7, key="initial parameters")
    mom = [(np.zeros_like(p), np.zeros_like(p), np.ones_like(p, bool)) for p in want0]
    for i in range(steps):
        params = [np.asarray(p, float) for p in get_params(state)]
        value, new = update(i, state)
        ck.trans()
        want = cost(m, params, u)
        ck.close(np.asarray(value) ** 2, want ** 2, f"{label}: cost before step {i}", 3e-6, key="cost")
        for a, b in zip(get_params(state), params):
            ck.close(np.asarray(a), b, f"{label}: step {i} changed the state it started from", 0, key="state")
        if want > 1e-2:
            for k, (p, g, q) in enumerate(zip(params, gradient(m, params, u), get_params(new))):
                mm, vv, ok = mom[k]
                mm, vv = 0.9 * mm + 0.1 * g, 0.999 * vv + 0.001 * g * g
                ok = ok & (np.abs(g) > 1e-3)
                mom[k] = mm, vv, ok
                step = step_size * mm / (1 - 0.9 ** (i + 1)) / (np.sqrt(vv / (1 - 0.999 ** (i + 1))) + 1e-8)
                ck.close(np.asarray(q)[ok], (p - step)[ok], f"{label}: step {i} of parameter set {k}", 3e-3 * step_size, key="step")
                ck.count("parameters compared", int(ok.sum()))
                # where the cost does not depend on a parameter nothing may move, up to the single-precision noise Adam magnifies
                ck.check(bool(np.all(np.isfinite(np.asarray(q)))), f"{label}: step {i} is not finite", key="finite")
        else:  # near the optimum the gradient is rounding noise: later steps depend on it
            mom = [(mm, vv, ok & False) for mm, vv, ok in mom]
            ck.check(all(np.all(np.isfinite(np.asarray(q))) for q in get_params(new)), f"{label}: step {i} at the optimum is not finite", key="finite")
        state = new
    for a, b in zip(m.params, before):
        ck.close(a, b, f"{label}: parameters of the circuit", 0, key="circuit unchanged")
    ck.close(u0, u, f"{label}: target passed in", 0, key="target unchanged")
    ck.trace()
    ck.outcome(label, round(float(want), 5))


def targets(m, n):
    u = refc.mesh_ref(m)
    g = refc.haar(n, 5)
    yield "generic", g
    yield "own matrix", u if np.allclose(u.conj().T @ u, np.eye(n), atol=1e-9) else g @ np.diag(np.exp(1j * np.arange(n)))
    yield "identity", np.eye(n, dtype=complex)
    yield "permutation", np.eye(n)[::-1].astype(complex)


def k_opt(case, ck):
    n, err = case["n"], case["err"]
    m = circ.family(case["family"], n, case["style"], "unequal" if err == "lossy" else err, seed=ck.seed)
    if err == "lossy":
        m = m.add_error_mean(0.05, -0.7)
        m.params = circ.generic_params(m, ck.seed)
    other = circ.generic_params(m, ck.seed + 7)
    quick = ck.tier == "quick"
    for t, (name, u) in enumerate(targets(m, n)):
        for step, start, jit in (((0.1, None, False), (0.02, other, True)) if quick else itertools.product((0.1, 0.02), (None, other), (False, True))):
            if quick and (t >= 2 or case['err'] != 'unequal' and t == 0) and jit:
                continue
            ck.state(case["family"], n, case["style"], err, name, step, start is None, jit)
            train(ck, m, u, f"{case['family']}({n}) {case['style']} {err} to {name}, step size {step}", step, start, jit, 3 if quick else 6)
    ck.sample(case)


def k_words(case, ck):
    for w in list(circ.words(3, 2))[case["lo"]:case["hi"]]:
        for ids in itertools.permutations(range(len(w))):
            m = circ.custom(w, 3, case["style"], ids, None, "unequal")
            m.params = circ.generic_params(m, ck.seed)
            ck.state(w, ids, case["style"])
            train(ck, m, refc.haar(3, 2), f"nodes {w} ids {ids} {case['style']}", 0.05, None, False, 2)
