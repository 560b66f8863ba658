"""Differentiable primitives: sparse solve and the transverse operator have exact values and derivatives."""
import itertools
import numpy as np

TOL = 1e-8
ASSUMPTIONS = ["reference: dense JAX linear algebra and its own automatic differentiation", "well-conditioned matrices"]
VALS = [2.0, -1.5 + 1j, 0.3j, -0.7]


def BOUNDS(tier):
    return (f"all sparsity patterns of 2x2 and {'every 5th of' if tier == 'quick' else 'all'} 3x3 matrices with a full diagonal x entry orders (sorted, reversed, duplicated) x complete cotangent bases; "
            "transverse operator: all small grids with and without PML x boundary phases x unit and generic permittivities x complete Jacobian; "
            "histories of solve/gradient calls on alternating matrices")


def cases(tier, seed):
    out = [{"kind": "solve", "n": 2, "lo": 0, "hi": 4}]
    step = 5 if tier == "quick" else 1
    pats = list(range(0, 64, step))
    out += [{"kind": "solve", "n": 3, "lo": p, "hi": p + 1} for p in pats]
    out += [{"kind": "compose"}, {"kind": "history"}]
    for shape in ((2, 2), (3, 2), (3, 3), (4, 3), (1, 3), (3, 1)) + (((5, 4), (6, 3)) if tier != "quick" else ()):
        for spacing in ((1.0,), (0.5, 0.7)):
            out.append({"kind": "operator", "shape": shape, "spacing": spacing, "pml": None})
    out += [{"kind": "operator", "shape": (10, 11), "spacing": sp, "pml": 4} for sp in ((1.0,), (0.5, 0.7))]
    return out


def pattern(n, code):
    off = [(i, j) for i in range(n) for j in range(n) if i != j]
    return [(i, i) for i in range(n)] + [e for k, e in enumerate(off) if code >> k & 1]


def run(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa: turns on double precision
    from simphox.primitives import spsolve
    if case["kind"] == "solve":
        n = case["n"]
        for code in range(case["lo"], case["hi"]):
            ij = pattern(n, code)
            a = np.array([VALS[(3 * k + code) % 4] * (1 + 0.1 * k) for k in range(len(ij))], complex)
            a[:n] += 4 * np.exp(1j * np.arange(n))
            for order in ("sorted", "reversed", "duplicated"):
                e, idx = a.copy(), np.array(ij).T
                if order == "reversed":
                    e, idx = e[::-1].copy(), idx[:, ::-1].copy()
                if order == "duplicated":
                    e, idx = np.r_[e * 0.3, e * 0.7], np.hstack([idx, idx])
                ck.state(n, code, order)
                for bk, b in enumerate([np.eye(n)[0] + 0j, np.exp(1j * np.arange(n)) * (1 + np.arange(n)), np.ones(n) * 1j]):
                    one(ck, jax, jnp, spsolve, e, idx, b, f"pattern {code} of {n}x{n} {order} rhs {bk}")
        ck.sample({"n": n, "pattern": ij})
    elif case["kind"] == "compose":
        compose(ck, jax, jnp, spsolve)
    elif case["kind"] == "history":
        history(ck, jax, jnp, spsolve)
    else:
        operator(ck, jax, jnp, case)


def dense(jnp, n, e, idx):
    return jnp.zeros((n, n), complex).at[idx[0], idx[1]].add(e)


def one(ck, jax, jnp, spsolve, e, idx, b, label):
    n = b.size
    i = jnp.array(idx)
    f = lambda e, b: spsolve(e, b, i)
    g = lambda e, b: jnp.linalg.solve(dense(jnp, n, e, idx), b)
    x, vjp = jax.vjp(f, jnp.array(e), jnp.array(b))
    y, vjp2 = jax.vjp(g, jnp.array(e), jnp.array(b))
    ck.trans()
    ck.close(x, y, f"solution {label}", TOL, key="value")
    for k in range(n):
        for c in (1.0 + 0j, 1j):
            ct = np.zeros(n, complex)
            ct[k] = c
            for a, w, nm in zip(vjp(jnp.array(ct)), vjp2(jnp.array(ct)), ("matrix entries", "right-hand side")):
                ck.trans()
                ck.close(a, w, f"derivative by {nm} {label} cotangent {k} {c}", TOL, key=f"vjp {nm}")
    ck.trace(2 * n + 1)
    ck.outcome(np.round(np.asarray(x), 5).tobytes())


def compose(ck, jax, jnp, spsolve):
    """Real losses through entries that depend on real parameters, as in inverse design; also compiled."""
    n = 4
    ij = pattern(n, 0b101101101101)
    idx = np.array(ij).T
    base = np.array([VALS[k % 4] for k in range(len(ij))], complex)
    base[:n] += 6
    for which, jit, reuse in itertools.product(range(3), (False, True), (False, True)):
        ck.state("compose", which, jit, reuse)

        def loss(solve):
            def l(t):
                e = jnp.array(base) + jnp.zeros(len(ij), complex).at[:n].add(t * (1 + 0.2j))
                x = solve(e, jnp.arange(n) + 1j)
                if reuse:
                    x = solve(e, x) + x
                return [jnp.sum(jnp.abs(x) ** 2), jnp.real(x[0] * jnp.conj(x[2])), jnp.abs(jnp.vdot(jnp.ones(n), x)) ** 2][which]
            return l
        f = jax.value_and_grad(loss(lambda e, b: spsolve(e, b + 0j, jnp.array(idx))))
        g = jax.value_and_grad(loss(lambda e, b: jnp.linalg.solve(dense(jnp, n, e, idx), b + 0j)))
        f = jax.jit(f) if jit else f
        for t in ([0.1, 0.2, -0.3, 0.5], [1.0, 0, 0, 2.0]):
            t = jnp.array(t)
            (v, d), (v2, d2) = f(t), g(t)
            ck.trans(2)
            ck.close(v, v2, f"loss {which} jit={jit}", TOL, key="compose value")
            ck.close(d, d2, f"gradient of loss {which} jit={jit} reuse={reuse}", TOL, key="compose gradient")
            ck.trace()
            ck.outcome(which, jit, reuse, round(float(v), 6))


def history(ck, jax, jnp, spsolve):
    """The transposed (adjoint) systems interleave with other systems and must not be confused with them."""
    n = 3
    idx = np.array(pattern(n, 0b110110)).T
    mats = []
    for k in range(3):
        e = np.array([VALS[(k + j) % 4] for j in range(idx.shape[1])], complex)
        e[:n] += 5
        mats.append(e)
    mats.append(mats[0].copy())
    mats[3][4] *= -1
    b = jnp.array([1.0, 1j, -2])
    for word in itertools.product(range(8), repeat=3):
        for t in word:
            k, grad = divmod(t, 2)
            e = mats[k]
            g = lambda s: (lambda q: jnp.sum(jnp.abs(s(q)) ** 2))
            f = g(lambda q: spsolve(q, b, jnp.array(idx)))
            r = g(lambda q: jnp.linalg.solve(dense(jnp, n, q, idx), b))
            ck.trans()
            if grad:
                ck.close(jax.grad(f)(jnp.array(e)), jax.grad(r)(jnp.array(e)), f"gradient within {word}", TOL, key="history gradient")
            else:
                ck.close(f(jnp.array(e)), r(jnp.array(e)), f"value within {word}", TOL, key="history value")
        ck.state("history", word)
        ck.trace()


def operator(ck, jax, jnp, case):
    from simphox.fdfd import FDFD
    from simphox.primitives import TMOperator
    shape, sp_, pml = case["shape"], case["spacing"], case["pml"]
    sp_ = sp_[0] if len(sp_) == 1 else tuple(sp_)
    size = tuple(s * d for s, d in zip(shape, (sp_, sp_) if np.isscalar(sp_) else sp_))
    for bloch in (0.0, 0.7):
        p = None if pml is None else tuple(pml * (s if not np.isscalar(sp_) else sp_) for s in ((sp_, sp_) if np.isscalar(sp_) else sp_))
        f = FDFD(size, sp_, bloch_phase=bloch, pml=p)
        df, db = f.deriv_forward, f.deriv_backward
        op = TMOperator(df, db)
        n = int(np.prod(f.shape))
        for axis in (0, 1):
            te = op.compile_operator_along_axis(axis)
            A, B = db[axis].toarray(), df[axis].toarray()
            idx = (op.x_indices, op.y_indices)[axis]
            idx = np.asarray(idx)
            for tk, t in enumerate((np.ones(n), 1 / (1 + np.arange(n) % 3), np.linspace(0.3, 2, n), np.linspace(0.3, 2, n) * (1 - 0.4j) ** (np.arange(n) % 3))):
                ck.state(shape, case["spacing"], pml, bloch, axis, tk)
                v, vjp = jax.vjp(te, jnp.array(t))
                ck.trans()
                got = np.zeros((n, n), complex)
                np.add.at(got, (idx[0], idx[1]), np.asarray(v))
                label = f"operator along {axis} on {f.shape} grid pml={pml} bloch={bloch}"
                ck.close(got, A @ np.diag(t) @ B, label, TOL, key="operator")
                for k in range(np.asarray(v).size):
                    if k % (1 if n <= 6 else 3 if n < 40 else 13) and (ck.tier == "quick" or n > 40):
                        continue
                    for c in (1.0 + 0j, 1j):
                        ct = np.zeros(np.asarray(v).size, complex)
                        ct[k] = c
                        want = c * A[idx[0][k], :] * B[:, idx[1][k]]
                        want = want if np.iscomplexobj(t) else np.real(want)
                        ck.trans()
                        ck.close(vjp(jnp.array(ct))[0], want, f"derivative of the {label} entry {k} cotangent {c}", TOL, key="operator vjp")
                ck.trace()
                ck.outcome(np.round(np.asarray(v), 4).tobytes())
        ck.raises(lambda: op.compile_operator_along_axis(2), "operator along a third axis", ValueError, key="axis")
    ck.sample({"shape": shape, "pml": pml})
