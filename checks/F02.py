"""Discrete derivatives, curls, averages and absorbing layers of every grid are the documented Yee operators."""
import itertools
import numpy as np

TOL = 1e-10
ASSUMPTIONS = ["reference: cell-by-cell finite differences (mc/refem.py)", "uniform spacing per axis, as the library supports",
               "functional differences (diff_fn, curl_fn) are for fields without Bloch phase, as documented"]


def BOUNDS(tier):
    m = 4 if tier == "quick" else 5
    return (f"all grids of 1..{m} pixels per axis in 1, 2 and 3 dimensions x isotropic/anisotropic spacing x Bloch phases (common, per axis) x complete bases of fields; "
            "all absorbing layers of 4..6 pixels on 10..14 pixels x exponents x reflections x wavelengths; all binary permittivities of small grids; PML sizes k*spacing for every k")


def cases(tier, seed):
    m = 4 if tier == "quick" else 5
    out = []
    for nd in (1, 2, 3):
        mm = m if nd < 3 else m - 1
        shapes = [s for s in itertools.product(range(1, mm + 1), repeat=nd) if nd > 1 or s[0] > 1]
        step = 8
        for i in range(0, len(shapes), step):
            out.append({"kind": "grid", "shapes": shapes[i:i + step]})
    for n in (10, 11, 13) + ((12, 14, 20) if tier != "quick" else ()):
        for p in (4, 5, 6):
            if p < n // 2:
                out.append({"kind": "pml", "n": n, "pml": p})
    out += [{"kind": "pml2", "shape": s} for s in ((10, 11), (10, 10, 10))]
    out += [{"kind": "average"}, {"kind": "pmlshape"}]
    return out


SPACINGS = {1: [(0.1,), (1.0,)], 2: [(0.1, 0.1), (0.5, 0.7)], 3: [(0.2, 0.2, 0.2), (0.5, 0.7, 0.3)]}
PHASES = {1: [0.0, 0.7], 2: [0.0, 0.7, (0.3, -1.1)], 3: [0.0, 0.7, (0.3, -1.1, 2.0)]}


def dense(d):
    return d.toarray() if hasattr(d, "toarray") else np.asarray(d)


def run(case, ck):
    if case["kind"] == "grid":
        for shape in case["shapes"]:
            for spacing, phase in itertools.product(SPACINGS[len(shape)], PHASES[len(shape)]):
                grid(ck, tuple(shape), spacing, phase)
        ck.sample({"shapes": case["shapes"][:3]})
    elif case["kind"] == "pml":
        pml(ck, case["n"], case["pml"])
    elif case["kind"] == "pml2":
        pml2(ck, tuple(case["shape"]))
    elif case["kind"] == "average":
        average(ck)
    else:
        pmlshape(ck)


def grid(ck, shape, spacing, phase):
    from simphox.grid import YeeGrid
    from simphox.utils import d2curl_op
    from mc.refem import Ref
    nd = len(shape)
    size = tuple(a * b for a, b in zip(shape, spacing))
    for sparg in ([spacing] + ([float(spacing[0])] if len(set(spacing)) == 1 else [])):
        g = YeeGrid(size, sparg, bloch_phase=phase if nd > 1 or isinstance(phase, float) else (phase,))
        r = Ref(shape, spacing, phase=phase)
        label = f"{shape} grid spacing {sparg} phase {phase}"
        ck.state(shape, sparg, phase)
        ck.close(np.array(g.shape), np.array(shape), f"shape of {label}", key="shape")
        ck.check(np.size(g.eps) == r.n, f"eps size {label}", key="shape")
        F, B = g.deriv_forward, g.deriv_backward
        ck.trans(2)
        if spacing == SPACINGS[nd][0]:
            each = [float(x) for x in np.ones(nd) * phase]
            forms = [("tuple", tuple(each)), ("list", each), ("array", np.array(each))]
            if len(set(each)) == 1:
                forms += [("float", each[0]), ("numpy float", np.float64(each[0]))] + ([("integer", int(each[0]))] if each[0] == int(each[0]) else [])
            for nm, form in forms:
                other = YeeGrid(size, sparg, bloch_phase=form)
                ck.trans()
                for x, y in zip(other.deriv_forward + other.deriv_backward, F + B):
                    ck.close(dense(x), dense(y), f"derivatives on {label} with the Bloch phase given as {nm}", TOL, key=f"phase as {nm}")
        for a in range(3):
            f, b = dense(F[a]), dense(B[a])
            ck.close(f, r.f[a], f"forward derivative {a} on {label}", TOL, key=f"forward {nd}")
            ck.close(b, r.b[a], f"backward derivative {a} on {label}", TOL, key=f"backward {nd}")
            ck.close(b, -f.conj().T, f"backward derivative {a} is minus the adjoint of the forward one on {label}", TOL, key="adjoint")
        if all(s > 1 for s in shape) or nd > 1:
            cf, cb = dense(d2curl_op(F)), dense(d2curl_op(B))
            ck.close(cf, r.curl(r.f), f"curl operator on {label}", TOL, key="curl matrix")
            ck.close(cb, r.curl(r.b), f"backward curl operator on {label}", TOL, key="curl matrix")
        ck.trace(5)
        ck.outcome(shape, np.round(dense(F[0]), 5).tobytes())
        if phase != 0.0:
            continue
        for jax_ in (False, True):
            for of_h in (False, True):
                d = r.b if of_h else r.f
                diff, curl = g.diff_fn(of_h=of_h, use_jax=jax_), g.curl_fn(of_h=of_h, use_jax=jax_)
                cols, want = [], []
                nbase = 3 * r.n
                basis = np.eye(nbase).reshape((nbase, 3) + r.shape)
                if nbase > 30 and jax_:
                    w = np.exp(1j * np.arange(nbase)) * (1 + np.arange(nbase) % 7)
                    basis = np.stack([w.reshape((3,) + r.shape), (w[::-1] ** 2).reshape((3,) + r.shape)])
                for v in basis:
                    v = v + 0j
                    if nd == 3:
                        cols.append(np.asarray(curl(v)))
                        want.append(r.apply_curl(d, v))
                    ck.trans()
                    for a in range(nd):
                        got = np.asarray(diff(v[0], a))
                        ck.close(got, r.apply(d, a, v[0]), f"difference along {a} of {'h' if of_h else 'e'} jax={jax_} on {label}", TOL, key=f"diff_fn {nd}")
                if nd == 3:
                    ck.close(np.stack(cols), np.stack(want), f"curl of {'h' if of_h else 'e'} jax={jax_} on {label}", TOL, key="curl_fn")
                    dv = [sum(r.apply(d, a, c[a]) for a in range(3)) for c in cols]
                    ck.close(np.stack(dv), np.zeros_like(np.stack(dv)), f"divergence of the curl on {label}", 1e-7, key="div curl")
                if nd == 2:  # cross section: invariant up to exp(-i beta z)
                    for beta in (0.0, 1.3):
                        cb = g.curl_fn(beta=beta, of_h=of_h, use_jax=jax_)
                        for v in basis[:: 1 if nbase < 20 else 3]:
                            v = v + 0j
                            q = lambda i, a: r.apply(d, a, v[i])
                            w = np.stack([q(2, 1) + 1j * beta * v[1], -1j * beta * v[0] - q(2, 0), q(1, 0) - q(0, 1)])
                            ck.trans()
                            ck.close(np.asarray(cb(v)), w, f"curl with beta={beta} of {'h' if of_h else 'e'} jax={jax_} on {label}", TOL, key="curl beta")
                ck.trace()


PARAMS = [(4, -16, 1.0), (3, -25, 1.0), (2, -10, 2.25)]


def pml(ck, n, p):
    """One axis of the absorbing layer, through the derivatives of the solver."""
    from simphox.fdfd import FDFD
    from mc.refem import Ref
    for dx, wl, params, phase in itertools.product((0.1, 0.3, 1.0), (1.55, 0.8), PARAMS, (0.0, 0.4)):
        other = n + 1
        f = FDFD((n * dx, other * dx), dx, wavelength=wl, pml=(p * dx, 4 * dx), pml_params=params, bloch_phase=phase)
        ck.state(n, p, dx, wl, params, phase)
        ck.close(np.array(f.pml_shape), np.array((p, 4)), f"layer of {p} pixels of {dx}", key="pml pixels")
        r = Ref((n, other), (dx, dx), 2 * np.pi / wl, phase, (p, 4), params, sparse=True)
        ck.close(f.k0, 2 * np.pi / wl, "k0", TOL, key="k0")
        F, B = f.deriv_forward, f.deriv_backward
        ck.trans(2)
        for a in (0, 1):
            for got, want, nm in ((F[a], r.f[a], "forward"), (B[a], r.b[a], "backward")):
                d = abs(got - want)
                ck.check(d.max() < 1e-9 * max(1, abs(want).max()), f"{nm} derivative {a} with a layer of {p} of {n} pixels, spacing {dx}, params {params}: differs by {d.max():.3g}", key=f"pml {nm}")
        for use_jax, of_h in itertools.product((False, True), repeat=2):
            diff = f.diff_fn(of_h=of_h, use_jax=use_jax)
            if phase:
                continue
            v = np.exp(1j * np.arange(n * other) ** 1.5).reshape(n, other, 1)
            for a in (0, 1):
                ck.close(np.asarray(diff(v, a)), r.apply(r.b if of_h else r.f, a, v), f"difference with a layer, axis {a}, of_h={of_h}, jax={use_jax}", 1e-9, key="pml diff_fn")
                ck.trans()
        # what the layer is for: it damps (one sign of the imaginary part), grows towards the edge, and leaves the interior alone
        for d, nm in ((F, "forward"), (B, "backward")):
            dd = -np.real(d[0].diagonal()) if nm == "forward" else np.real(d[0].diagonal())
            s = (1 / (d[0].diagonal() * (-1 if nm == "forward" else 1)) / dx).reshape(n, other)[:, 0]
            ck.check(np.all(np.abs(s[p:n - p] - 1) < 1e-9), f"{nm} derivative changed between the layers", key="pml interior")
            ck.check(np.all(s.imag <= 1e-12) and np.all(np.abs(s.real - 1) < 1e-9), f"{nm} stretch must have real part 1 and a damping imaginary part", key="pml sign")
            a = -s.imag
            ck.check(np.all(np.diff(a[:p + 1]) <= 1e-12) and np.all(np.diff(a[n - p:]) >= -1e-12), f"{nm} damping must grow towards the edges", key="pml monotone")
            ck.check(a[0] > 0 and a[-1] > 0, "no damping at the edges", key="pml monotone")
            ck.trace()
            ck.outcome(np.round(s, 4).tobytes())
            del dd
    ck.sample({"n": n, "pml": p})


def pml2(ck, shape):
    from simphox.fdfd import FDFD
    from mc.refem import Ref
    sp_ = (0.1, 0.2, 0.15)[:len(shape)]
    f = FDFD(tuple(a * b for a, b in zip(shape, sp_)), sp_, wavelength=1.2, pml=tuple(4 * s for s in sp_))
    r = Ref(shape, sp_, 2 * np.pi / 1.2, 0.0, (4,) * len(shape), sparse=True)
    rs = np.random.RandomState(0)
    v = rs.randn(3, *r.shape) + 1j * rs.randn(3, *r.shape)
    for a in range(len(shape)):
        for got, want in ((f.deriv_forward[a], r.f[a]), (f.deriv_backward[a], r.b[a])):
            ck.check(abs(got - want).max() < 1e-8, f"derivative {a} with layers on all sides of {shape}", key="pml all sides")
            ck.trans()
    if len(shape) == 3:
        for jax_, of_h in itertools.product((False, True), repeat=2):
            ck.close(np.asarray(f.curl_fn(of_h=of_h, use_jax=jax_)(v)), r.apply_curl(r.b if of_h else r.f, v), f"curl with layers of_h={of_h} jax={jax_}", 1e-9, key="pml curl")
        ck.close(f.e2h(v.ravel()), r.apply_curl(r.f, v) / (-1j * f.k0), "e2h", 1e-9, key="e2h")
        eps = 1 + rs.rand(*shape)
        f.eps = eps
        from mc.refem import yee
        ck.close(f.h2e(v.ravel()), r.apply_curl(r.b, v) / (1j * f.k0 * yee(eps)), "h2e", 1e-9, key="h2e")
        ck.trans(6)
    if len(shape) == 2:  # a cross section seen as invariant up to exp(-i beta z)
        f.eps = eps = 1 + rs.rand(*shape)
        from mc.refem import yee
        for beta in (0.0, 0.7, 2.4):
            for conv, d, scale in ((f.e2h, r.f, -1j * f.k0), (f.h2e, r.b, 1j * f.k0 * yee(eps.reshape(r.shape)))):
                q = lambda i, a: r.apply(d, a, v[i])
                w = np.stack([q(2, 1) + 1j * beta * v[1], -1j * beta * v[0] - q(2, 0), q(1, 0) - q(0, 1)]) / scale
                ck.close(conv(v, beta), w, f"field conversion with beta={beta}", 1e-8, key="beta conversion")
                ck.close(conv(v.ravel(), beta=beta), w, f"field conversion of a flat field with beta={beta}", 1e-8, key="beta conversion")
                ck.trans(2)
    ck.state(shape, "pml2")
    ck.outcome(shape)
    ck.trace(4)


def average(ck):
    """Yee-averaged permittivity: all binary patterns, numpy and JAX."""
    import jax.numpy as jnp
    from simphox.grid import YeeGrid
    from simphox.utils import yee_avg, yee_avg_2d_z, yee_avg_jax
    from mc.refem import yee
    for shape in ((2, 2), (3, 3), (1, 4), (4, 1), (2, 2, 2), (2, 3, 1), (1, 1, 3), (5,)):
        n = int(np.prod(shape))
        for code in range(2 ** n):
            eps = (1 + 11 * (np.array([code >> i & 1 for i in range(n)]))).astype(float).reshape(shape)
            s3 = shape + (1,) * (3 - len(shape))
            want = yee(eps.reshape(s3))
            ck.state("avg", shape, code)
            ck.close(yee_avg(eps.reshape(s3)), want, f"average of {eps.tolist()}", TOL, key="average")
            ck.trans()
            ck.trace()
            if code % (1 if n < 6 else 7) == 0:
                g = YeeGrid(tuple(float(s) for s in shape), 1.0, eps=eps)
                ck.close(g.eps_t, want, f"eps_t of {eps.tolist()}", TOL, key="eps_t")
                ck.close(np.asarray(yee_avg_jax(jnp.array(eps.reshape(s3)))), want, "jax average", TOL, key="average jax")
                ck.close(np.asarray(yee_avg_2d_z(jnp.array(eps.reshape(s3)))), want[2], "jax z average", TOL, key="average jax z")
                ck.trans(3)
        ck.outcome(shape)


def pmlshape(ck):
    """A layer of k pixels has k pixels for every spacing and k; unusable layers are rejected."""
    from simphox.grid import YeeGrid
    for dx in (0.01, 0.02, 0.025, 0.03, 0.05, 0.07, 0.1, 0.15, 0.3, 0.7, 1.0, 1 / 3):
        for n in (9, 10, 17, 30, 41):
            for k in range(0, n + 1):
                label = f"{n} pixels of {dx} with a layer of {k}"
                ok = 3 < k < n // 2
                mk = lambda: YeeGrid((n * dx, n * dx), dx, pml=(k * dx, k * dx))
                ck.state(dx, n, k)
                ck.trans()
                if not ok:
                    ck.raises(mk, f"{label} must be rejected", Exception, key="bad layer")
                    continue
                g = mk()
                ck.check(tuple(g.pml_shape) == (k, k) and tuple(g.shape) == (n, n), f"{label}: got {tuple(g.pml_shape)} of {tuple(g.shape)}", key="layer pixels")
                ck.trace()
                ck.outcome(n, k)
    for nd in (2, 3):
        ck.raises(lambda: YeeGrid((1.0,) * nd, 0.05, bloch_phase=(0.1,) * (nd - 1)), "too few Bloch phases", AttributeError, key="bad phase")
        ck.raises(lambda: YeeGrid((1.0,) * nd, (0.05,) * (nd - 1)), "too few spacings", AttributeError, key="bad spacing")
        ck.raises(lambda: YeeGrid((1.0,) * nd, 0.5, eps=np.ones((2,) * (nd - 1) + (3,))), "eps of another shape", AttributeError, key="bad eps")
