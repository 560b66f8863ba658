"""The frequency-domain solver returns the fields of the discretised Maxwell equations, in numpy and in JAX."""
import itertools
import numpy as np

TOL = 1e-7
ASSUMPTIONS = ["reference: documented operator assembled cell by cell (mc/refem.py)", "no Bloch phase (documented as not implemented)",
               "wavelengths away from resonances of the finite closed grid (condition number < 1e6)", "iterative 3D solvers to their default tolerance, where a damped reference converges"]
HIGH = 6.25


def BOUNDS(tier):
    return ("all binary permittivities of 3x3 (2D, both polarizations, every unit source), 2x2x2 (3D, every unit source in turn) and 1-pixel-wide and 1D grids x numpy/JAX; "
            "complete Jacobian of the JAX solvers by the permittivity on small grids; grids with absorbing layers on all sides x every unit source; wavelengths, anisotropic spacings, complex permittivities")


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for lo in range(0, 512, 64):
        out.append({"kind": "2d", "shape": (3, 3), "lo": lo, "hi": lo + 64, "step": 1})
    for shape in ((2, 3), (4, 2), (1, 5), (5, 1), (2, 2), (4,), (6,)) + (() if q else ((3, 4),)):
        out.append({"kind": "2d", "shape": shape, "lo": 0, "hi": 2 ** int(np.prod(shape)), "step": 3 if q else 1})
    for lo in range(0, 256, 32):
        out.append({"kind": "3d", "shape": (2, 2, 2), "lo": lo, "hi": lo + 32})
    for shape in ((2, 3, 2), (1, 3, 2), (3, 1, 2), (2, 2, 1), (4, 3, 2)):
        out.append({"kind": "3d", "shape": shape, "lo": 5, "hi": 5 + (3 if q else 40)})
    for tm in (False, True):
        for sp_ in ((0.1, 0.1), (0.1, 0.13)):
            out.append({"kind": "pml", "tm": tm, "spacing": sp_, "shape": (10, 11)})
        out.append({"kind": "pml", "tm": tm, "spacing": (0.1,), "shape": (13,)})
    out.append({"kind": "pml3"})
    out += [{"kind": "jax", "shape": s, "tm": tm, "sp": sp_} for s in ((3, 3), (2, 4), (1, 4), (4, 1), (5,)) for tm in (False, True) for sp_ in ((0.3, 0.3), (0.3, 0.4))[:len(s)]]
    out += [{"kind": "jaxpml", "tm": tm} for tm in (False, True)]
    out += [{"kind": "jax3", "shape": s} for s in ((2, 2, 2), (3, 2, 1), (2, 1, 3))]
    out += [{"kind": "power", "pol": t, "spacing": sp_} for t in ("tm", "te", "x", "y", "z") for sp_ in ([0.05, 0.05, 0.05], [0.05, 0.06, 0.045])]
    out.append({"kind": "misc"})
    return out


def binary(shape, code):
    n = int(np.prod(shape))
    return (1 + (HIGH - 1) * np.array([code >> i & 1 for i in range(n)])).astype(float).reshape(shape)


def ref(shape, spacing, wl, **kw):
    from mc.refem import Ref
    return Ref(shape, spacing, 2 * np.pi / wl, **kw)


def fields2d(r, eps, fz, tm):
    """The other field components from the z component, by the documented curl equations."""
    from mc.refem import yee
    fz = fz.reshape(r.shape)
    o = np.zeros_like(fz)
    d = r.b if tm else r.f
    t = np.stack([r.apply(d, 1, fz), -r.apply(d, 0, fz), o]) / ((1j if tm else -1j) * r.k0)
    z = np.stack([o, o, fz])
    return np.stack([t / yee(eps.reshape(r.shape)), z]) if tm else np.stack([z, t])


def run(case, ck):
    globals()["k_" + case["kind"].replace("2d", "d2").replace("3d", "d3")](case, ck)


def k_d2(case, ck):
    from simphox.fdfd import FDFD
    shape = tuple(case["shape"])
    for code in range(case["lo"], case["hi"], case["step"]):
        eps = binary(shape, code)
        spacing, wl = [((0.1, 0.1), 1.55), ((0.1, 0.13), 1.1), ((0.3, 0.2), 0.9)][code % 3]
        spacing = spacing[:len(shape)]
        if code % 5 == 4:
            eps = eps + 0.3j * (np.arange(eps.size).reshape(shape) % 2)
        f = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl, eps=eps.copy())
        r = ref(shape, spacing, wl)
        for tm in (True, False):
            A = r.mat_hz(eps) if tm else r.mat_ez(eps)
            ck.state(shape, code, tm)
            if np.linalg.cond(A) > 1e6:
                ck.count("ill conditioned")
                continue
            got = (f.mat_hz if tm else f.mat_ez).toarray()
            ck.close(got, A, f"{'TM' if tm else 'TE'} operator {shape} eps {code} spacing {spacing} wavelength {wl}", TOL, key=f"operator 2d {tm}")
            ck.trans()
            srcs = np.eye(r.n)[:: 1 if code % 4 == 0 else 4].astype(complex)
            srcs = np.vstack([srcs, np.exp(1j * np.arange(r.n))[None] * (1 + np.arange(r.n) % 3)])
            X = np.linalg.solve(A, r.k0 * srcs.T).T
            for s, x in zip(srcs, X):
                arg = s.reshape(f.shape) if code % 2 else s.copy()
                keep = arg.copy()
                out = f.solve(arg, tm_2d=tm)
                ck.trans()
                ck.close(out, fields2d(r, eps, x, tm), f"{'TM' if tm else 'TE'} fields on {shape} eps {code}", 1e-6, key=f"fields 2d {tm}")
                ck.check(np.array_equal(arg, keep), "the source was modified", key="source modified")
            ck.trace(len(srcs))
            ck.outcome(shape, code, tm, np.round(X[0], 4).tobytes())
        ck.check(np.array_equal(f.eps, eps), "the permittivity was modified", key="eps modified")
    ck.sample({"shape": shape, "eps": code})


def k_d3(case, ck):
    from simphox.fdfd import FDFD
    shape = tuple(case["shape"])
    for code in range(case["lo"], case["hi"]):
        eps = binary(shape, code)
        spacing, wl = [((0.2,) * 3, 1.55), ((0.2, 0.3, 0.25), 1.1)][code % 2]
        f = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl, eps=eps.copy())
        r = ref(shape, spacing, wl)
        A = r.mat(eps)
        ck.state(shape, code)
        ck.close(f.mat.toarray(), A, f"operator {shape} eps {code}", TOL, key="operator 3d")
        ck.close(f.A.toarray(), A, f"operator alias {shape} eps {code}", TOL, key="operator 3d")
        ck.trans()
        if np.linalg.cond(A) > 1e6:
            ck.count("ill conditioned")
            continue
        n = 3 * r.n
        srcs = [np.eye(n)[k] + 0j for k in range(n) if code % 8 == 0 or k % 6 == code % 6]
        srcs.append(np.exp(1j * np.arange(n)) * (1 + np.arange(n) % 3))
        for k, s in enumerate(srcs):
            e = np.linalg.solve(A, r.k0 * s).reshape((3,) + r.shape)
            h = r.apply_curl(r.f, e) / (-1j * r.k0)
            out = f.solve(s.reshape((3,) + r.shape) if k % 2 else s)
            ck.trans()
            ck.close(out, np.stack([e, h]), f"fields on {shape} eps {code} source {k}", 1e-6, key="fields 3d")
            if k % 5 == 0:
                ck.close(f.e2h(out[0]), h, "e2h of the solution", 1e-6, key="e2h")
                from mc.refem import yee
                ck.close(f.h2e(out[1]), e + s.reshape(e.shape) / (r.k0 * yee(eps.reshape(r.shape))), "h2e of the solution: the electric field again, and the current", 1e-6, key="h2e")
                import scipy.sparse.linalg as sl
                ck.close(f.solve(s, solver_fn=lambda m, b: sl.spsolve(m.tocsc(), b)), np.stack([e, h]), "given solver", 1e-6, key="solver_fn")
                ck.trans(2)
                for it in (1, 2):
                    v = f.solve(s, iterative=it)
                    ck.close(v, np.stack([e, h]), f"iterative solver {it} on {shape} eps {code}", 1e-3, key="iterative")
                    ck.trans()
            ck.trace()
            ck.outcome(shape, code, k, np.round(e, 3).tobytes())
    ck.sample({"shape": shape, "eps": code})


def k_pml(case, ck):
    """Absorbing layers on all sides; every unit source; reciprocity of the transverse response follows from the equality with the reference."""
    from simphox.fdfd import FDFD
    import scipy.sparse.linalg as sl
    shape, sp_, tm = tuple(case["shape"]), tuple(case["spacing"]), case["tm"]
    for wl, params, ek in itertools.product((1.55, 0.9), ((4, -16, 1.0), (3, -12, 2.0)), (0, 1)):
        eps = np.ones(shape) + ek * HIGH * (np.abs(np.arange(shape[-1]) - 5) < 2)
        f = FDFD(tuple(a * b for a, b in zip(shape, sp_)), sp_, wavelength=wl, eps=eps, pml=tuple(4 * s for s in sp_), pml_params=params)
        r = ref(shape, sp_, wl, pml=(4,) * len(shape), params=params, sparse=True)
        A = (r.mat_hz(eps) if tm else r.mat_ez(eps)).tocsc()
        ck.state(wl, params, ek)
        got = f.mat_hz if tm else f.mat_ez
        ck.check(abs(got - A).max() < 1e-8 * abs(A).max(), f"operator with layers differs by {abs(got - A).max():.3g}", key="operator pml")
        lu = sl.splu(A)
        for k in range(r.n):
            s = np.zeros(r.n, complex)
            s[k] = 1
            out = f.solve(s, tm_2d=tm)
            ck.trans()
            ck.close(out, fields2d(r, eps, lu.solve(r.k0 * s), tm), f"fields of unit source {k} with layers, tm={tm} wavelength {wl}", 1e-6, key=f"fields pml {tm}")
            ck.trace()
        ck.outcome(wl, params, ek, np.round(out, 3).tobytes())


def k_pml3(case, ck):
    from simphox.fdfd import FDFD
    import scipy.sparse.linalg as sl
    shape, sp_ = (10, 10, 10), (0.1, 0.12, 0.1)
    eps = np.ones(shape)
    eps[:, 4:6, 4:6] = 4
    for wl in (1.55,):
        f = FDFD(tuple(a * b for a, b in zip(shape, sp_)), sp_, wavelength=wl, eps=eps, pml=tuple(4 * s for s in sp_))
        r = ref(shape, sp_, wl, pml=(4,) * 3, sparse=True)
        A = r.mat(eps).tocsc()
        ck.check(abs(f.mat - A).max() < 1e-8 * abs(A).max(), "3D operator with layers", key="operator pml 3d")
        for k in (5 * 100 + 55, 1000 + 455, 2000 + 544, 2000 + 4):
            s = np.zeros(3000, complex)
            s[k] = 1
            e, h = f.solve(s)
            ck.trans()
            res = np.linalg.norm(A @ e.ravel() - r.k0 * s) / np.linalg.norm(r.k0 * s)
            ck.check(res < 1e-6, f"3D solution with layers leaves residual {res:.3g}", key="residual pml 3d")
            ck.close(h, r.apply_curl(r.f, e) / (-1j * r.k0), "h from e", 1e-7, key="h pml 3d")
            ck.trace()
            ck.state("pml3", wl, k)
            ck.outcome(k, np.round(e[0, 5, 5, 5], 6))
    del sl


def jref2d(jnp, r, shape, tm):
    """The same reference in JAX, as a function of the permittivity."""
    F, B = [jnp.array(x) for x in r.f], [jnp.array(x) for x in r.b]
    n = r.n
    # linear averages as matrices
    from mc.refem import yee
    av = np.stack([yee(np.eye(n)[k].reshape(r.shape)).reshape(3, n) for k in range(n)], axis=-1)
    av = jnp.array(av)

    def fields(eps, src):
        ex, ey, ez = [av[i] @ eps.reshape(-1) for i in range(3)]
        if tm:
            A = -(B[0] / ey) @ F[0] - (B[1] / ex) @ F[1] - r.k0 ** 2 * jnp.eye(n)
            hz = jnp.linalg.solve(A, r.k0 * src)
            o = jnp.zeros(n)
            e = jnp.stack([B[1] @ hz / ex, -B[0] @ hz / ey, o]) / (1j * r.k0)
            h = jnp.stack([o, o, hz])
        else:
            A = -B[0] @ F[0] - B[1] @ F[1] - r.k0 ** 2 * jnp.diag(ez)
            z = jnp.linalg.solve(A, r.k0 * src)
            o = jnp.zeros(n)
            e = jnp.stack([o, o, z])
            h = jnp.stack([F[1] @ z, -F[0] @ z, o]) / (-1j * r.k0)
        return jnp.stack([e, h]).reshape((2, 3) + r.shape)
    return fields


def k_jax(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.fdfd import FDFD
    shape, tm, spacing = tuple(case["shape"]), case["tm"], tuple(case["sp"])[:len(case["shape"])]
    wl = 1.3
    r = ref(shape, spacing, wl)
    n = r.n
    rf = jref2d(jnp, r, shape, tm)
    codes = range(0, 2 ** n, {9: 37, 8: 19}.get(n, 3) if ck.tier == "quick" else {9: 11, 8: 5}.get(n, 1))
    square = lambda x: 1 + x ** 2
    for code in codes:
        eps = binary(shape, code)
        A = r.mat_hz(eps) if tm else r.mat_ez(eps)
        if np.linalg.cond(A) > 1e5:
            ck.count("ill conditioned")
            continue
        src = np.exp(1j * np.arange(n)) * (1 + np.arange(n) % 3) if code % 2 else np.eye(n)[code % n] + 0j
        f = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl)
        lossy = lambda x: x * (1 - 0.2j * (np.arange(n).reshape(shape) % 2))
        for tk, tr in enumerate((None, square, lossy, None)[:4 if code % 2 else 2]):
            # unit sources are given as real numbers of every type as well
            given = src if code % 2 else src.real.astype((complex, float, int, np.float32, np.complex64, bool)[code // 2 % 6])
            given = np.asfortranarray(given.reshape(shape)) if code % 4 > 1 else given
            keep = given.copy()
            fn = f.get_fields_fn(given, tr, tm_2d=tm)
            if code % 3 == 0:
                fn = jax.jit(fn)
            rho = np.sqrt(eps - 1 + 0.2) if tr is square else lossy(eps) if tk == 3 else eps
            e_eff = rho if tr is None else tr(rho)
            label = f"JAX fields {shape} eps {code} tm={tm} transform {tk}"
            ck.state(shape, spacing, code, tm, tk)
            out, vjp = jax.vjp(fn, jnp.array(rho))
            want, vjp2 = jax.vjp(lambda q: rf(q if tr is None else tr(q), jnp.array(src)), jnp.array(rho))
            ck.trans()
            ck.close(out, want, label, 1e-6, key=f"jax fields {tm}")
            g = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl, eps=np.array(e_eff))
            ck.close(np.asarray(out), g.solve(given, tm_2d=tm), label + " against solve", 1e-6, key=f"jax against solve {tm}")
            comps = [(1, 2), (0, 0), (0, 1)] if tm else [(0, 2), (1, 0), (1, 1)]
            ck.check(np.array_equal(given, keep), f"source of {label} modified", key="jax source")
            for (a, b), i in itertools.product(comps, range(n)):
                if (code + i) % 3 and ck.tier == "quick":
                    continue
                for c in (1.0, 1j):
                    ct = np.zeros((2, 3) + r.shape, complex)
                    ct[a, b].ravel()[i] = c
                    ck.close(vjp(jnp.array(ct))[0], vjp2(jnp.array(ct))[0], f"derivative of {label} component {a, b} pixel {i}", 1e-5, key=f"jax gradient {tm}")
                    ck.trans()
            ck.trace()
            ck.outcome(code, tk, np.round(np.asarray(out), 3).tobytes())
    ck.sample({"shape": shape, "tm": tm})


def k_jaxpml(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.fdfd import FDFD
    tm, shape, spacing, wl = case["tm"], (10, 11), (0.1, 0.13), 1.3
    r = ref(shape, spacing, wl, pml=(4, 4))
    rf = jref2d(jnp, r, shape, tm)
    eps = np.ones(shape)
    eps[:, 4:7] = 5
    f = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl, eps=eps, pml=tuple(4 * s for s in spacing))
    for k in (55, 47, 3, 60, 109):
        src = np.zeros(110, complex)
        src[k] = 1j + 0.5
        fn = f.get_fields_fn(src, tm_2d=tm)
        ck.state("pml", tm, k)
        ck.close(np.asarray(fn(jnp.array(eps))), f.solve(src, tm_2d=tm), f"JAX fields with layers tm={tm}", 1e-6, key="jax pml")
        cost = lambda q, s: jnp.sum(jnp.abs(s(q)[0 if not tm else 1, 2]) ** 2 * jnp.arange(110).reshape(r.shape))
        g, w = jax.grad(lambda q: cost(q, fn))(jnp.array(eps)), jax.grad(lambda q: cost(q, lambda x: rf(x, jnp.array(src))))(jnp.array(eps))
        ck.close(g, w, f"gradient with layers tm={tm}", 1e-5, key="jax pml gradient")
        ck.trans(3)
        ck.trace(2)
        ck.outcome(k, np.round(np.asarray(g), 4).tobytes())


def k_jax3(case, ck):
    """3D JAX solver (iterative): fields to the tolerance of the iteration where it converges."""
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.fdfd import FDFD
    shape, spacing, wl = tuple(case["shape"]), (0.4, 0.5, 0.45), 1.55
    r = ref(shape, spacing, wl)
    n = 3 * r.n
    for code in range(1, 2 ** r.n, 17 if ck.tier == "quick" else 3):
        eps = binary(shape, code) * (1 + 0.5j)
        A = r.mat(eps)
        if np.linalg.cond(A) > 300:
            continue
        f = FDFD(tuple(a * b for a, b in zip(shape, spacing)), spacing, wavelength=wl)
        for src in (np.eye(n)[code % n].astype((complex, float, int)[code % 3]), np.exp(1j * np.arange(n))):
            out = np.asarray(jax.jit(f.get_fields_fn(src))(jnp.array(eps)))
            ck.trans()
            ck.state(shape, code)
            e = np.linalg.solve(A, r.k0 * src).reshape((3,) + r.shape)
            ck.close(out, np.stack([e, r.apply_curl(r.f, e) / (-1j * r.k0)]), f"3D JAX fields {shape} eps {code}", 2e-3, key="jax 3d")
            ck.trace()
            ck.outcome(code, np.round(out, 2).tobytes())
            if ck.tier == "quick" and (src.dtype != complex or code // 17 % 3):
                continue
            weights = 1.0 + np.arange(2 * n).reshape(out.shape) % 5

            def cost(q):
                v = np.linalg.solve(r.mat(q), r.k0 * src).reshape((3,) + r.shape)
                return np.sum(weights * np.abs(np.stack([v, r.apply_curl(r.f, v) / (-1j * r.k0)])) ** 2)

            grad = np.asarray(jax.grad(lambda q: jnp.sum(weights * jnp.abs(f.get_fields_fn(src)(q)) ** 2))(jnp.array(eps)))
            want = np.zeros(shape, complex)
            for i in range(r.n):
                for u in (1, 1j):
                    d = 1e-4 * u * np.eye(r.n)[i].reshape(shape)
                    want.ravel()[i] += (cost(eps + d) - cost(eps - d)) / 2e-4 / u  # the derivative by the imaginary part counts negatively
            ck.trans()
            ck.close(grad, want, f"derivative of 3D JAX fields {shape} eps {code}", 5e-3, key="jax 3d gradient")


def k_power(case, ck):
    """Without losses, the same power flows outwards through every box around a source."""
    from simphox.fdfd import FDFD
    cubic = case["pol"] in "xyz"
    n = (18, 17, 16) if cubic else (26, 24)
    sp = case["spacing"][:len(n)]
    rs = np.random.RandomState(len(case["pol"]))

    def mean(f, a):
        return (f + np.roll(f, 1, a)) / 2 if f.shape[a] > 1 else f

    patterns = [np.ones(n), np.where(rs.rand(*n) < 0.3, 2.0, 1.0), 1 + 2.0 * (np.indices(n)[0] > n[0] // 2 + 2), 1 + 2.0 * (np.indices(n)[1] < 9)]
    for k, eps in enumerate(patterns if not cubic or ck.tier != "quick" else patterns[:2]):
        f = FDFD(tuple(d * s for d, s in zip(sp, n)), tuple(sp), eps=eps, wavelength=1.0, pml=tuple(4 * d for d in sp))
        for shift in ((0, 0, 0), (1, -2, 0), (-2, 0, -1)) if not cubic else ((0, 0, 0),):
            c = [s // 2 + q for s, q in zip(n, shift)]
            src = np.zeros(((3,) if cubic else ()) + n, complex)
            src[(("xyz".index(case["pol"]),) if cubic else ()) + tuple(c)] = 1
            e, h = f.solve(src, tm_2d=case["pol"] == "tm")
            ck.trans()
            # fields at the corners of the cells
            e = np.stack([mean(e[a], a) for a in range(3)])
            h = np.stack([mean(mean(h[a], (a + 1) % 3), (a + 2) % 3) for a in range(3)])
            flow = np.real(np.cross(e, h.conj(), axis=0))
            powers = []
            for r in (2, 3, 4):
                total = 0
                for a, side in itertools.product(range(len(n)), (1, -1)):
                    at = [slice(q - r, q + r + 1) for q in c] + [0] * (3 - len(n))
                    at[a] = c[a] + side * r
                    v = flow[(a,) + tuple(at)]
                    for b in range(v.ndim):  # trapezoidal rule
                        v = (np.moveaxis(v, b, 0)[1:] + np.moveaxis(v, b, 0)[:-1]).sum(axis=0, keepdims=True) / 2
                    total += side * v.sum() * np.prod(sp) / sp[a]
                powers.append(total)
            ck.check(min(powers) > 0 and max(powers) < 1.5 * min(powers), f"{case['pol']} source at {c}, permittivity {k}, spacing {sp}: power {powers} leaves boxes around it", key=f"power {case['pol']}")
            ck.state(case["pol"], sp, k, shift)
            ck.outcome(np.float32(powers).tobytes())
    ck.trace()


def k_misc(case, ck):
    from simphox.fdfd import FDFD
    from simphox.sim import SimGrid
    import scipy.sparse.linalg as sl
    # conversions keep the problem
    for nd, pml, wl in itertools.product((2, 3), (None, 4), (1.55, 0.7)):
        shape = (10, 11, 10)[:nd]
        sp_ = (0.1, 0.2, 0.15)[:nd]
        eps = 1 + np.arange(int(np.prod(shape))).reshape(shape) % 3.0
        params = (3, -20, 1.5)
        s = SimGrid(tuple(a * b for a, b in zip(shape, sp_)), sp_, eps=eps, pml=None if pml is None else tuple(pml * x for x in sp_), pml_params=params + (5,), pml_sep=3)
        s.port = {"p": 1}
        f = FDFD.from_simgrid(s, wl)
        g = FDFD(tuple(a * b for a, b in zip(shape, sp_)), sp_, wavelength=wl, eps=eps, pml=None if pml is None else tuple(pml * x for x in sp_), pml_params=params)
        ck.state("from", nd, pml, wl)
        ck.check(abs(f.mat - g.mat).max() < 1e-9, f"from_simgrid of a {nd}D grid with layer {pml}", key="from_simgrid")
        ck.check(f.port == s.port and f.pml_sep == 3 and f.wavelength == wl, "from_simgrid loses attributes", key="from_simgrid")
        ck.trans(2)
        ck.trace()
        ck.outcome(nd, pml, wl)
        n = int(np.prod(shape)) * (3 if nd == 3 else 1)
        for bad in (1, n - 1, n + 1, n * 3 if nd == 2 else n // 3):
            ck.raises(lambda: g.solve(np.ones(bad, complex)), f"source of size {bad} instead of {n}", ValueError, key="bad source")
    # the solver that the caller passes gets exactly the documented system, for both polarizations
    shape, sp_ = (4, 5), (0.1, 0.15)
    eps = 1 + np.arange(20).reshape(shape) % 4.0
    r = ref(shape, sp_, 1.2)
    f = FDFD((0.4, 0.75), sp_, wavelength=1.2, eps=eps)
    for tm in (True, False):
        seen = []

        def solver(m, b):
            seen.append((m.toarray(), np.array(b)))
            return sl.spsolve(m.tocsc(), b)
        src = np.exp(1j * np.arange(20))
        ck.close(f.solve(src, solver_fn=solver, tm_2d=tm), f.solve(src, tm_2d=tm), "given solver", 1e-8, key="solver_fn 2d")
        ck.close(seen[0][0], r.mat_hz(eps) if tm else r.mat_ez(eps), "matrix given to the solver", 1e-9, key="solver_fn 2d")
        ck.close(seen[0][1], r.k0 * src, "right-hand side given to the solver", 1e-9, key="solver_fn 2d")
        ck.trans(2)
        ck.trace()
