"""Modes are measured, placed and cut out of simulations consistently for every orientation and position."""
import itertools
import numpy as np

TOL = 1e-7
ASSUMPTIONS = ["reference: documented flux overlap of pixel-centred fields; cross sections of the permittivity cut out pixel by pixel",
               "uniform spacing along each axis (equal or different between axes)"]


def BOUNDS(tier):
    return ("all binary 1D cross sections of 7 pixels and of 3x3 (stride) x modes x polarizations: complete basis of electric and magnetic fields, numpy and JAX; "
            "every placement of a mode along every axis of small 2D and 3D grids; every cut of small 2D and 3D grids (all positions, orientations and widths)")


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kind": "measure", "shape": (7,), "codes": [c, 128, 32 if q else 8]} for c in (3, 11, 19, 27)]
    out += [{"kind": "measure", "shape": (3, 3), "codes": [c, 512, 96 if q else 24]} for c in (16, 40, 64, 88)]
    out += [{"kind": "measure", "shape": (4, 3), "codes": [c, 4096, 900]} for c in (96, 300)]
    for sp in ([0.1, 0.1, 0.1], [0.1, 0.13, 0.16]):
        out += [{"kind": "place", "axis": a, "spacing": sp} for a in range(3)] + [{"kind": "place2", "axis": a, "spacing": sp[:2]} for a in range(2)]
        out += [{"kind": "cut3", "axis": a, "part": p, "spacing": sp} for a in range(3) for p in range(3)] + [{"kind": "cut2", "axis": a, "spacing": sp[:2]} for a in range(2)]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def flux(e, h):
    avg = lambda f, axis: (f + np.roll(f, 1, axis)) / 2
    return np.sum(avg(e[0], 1) * np.conj(avg(h[1], 1)) - avg(e[1], 0) * np.conj(avg(h[0], 0)))


def k_measure(case, ck):
    from checks.M01 import pattern, solver
    from simphox.mode import ModeLibrary
    shape = tuple(case["shape"])
    for code in range(*case["codes"]):
        for spacing, wl in (((0.1,) * len(shape), 0.7), ((0.1, 0.13)[:len(shape)], 0.9)):
            eps = pattern(shape, code)
            lib = ModeLibrary(solver(shape, spacing, wl, eps), 3)
            for m in range(len(lib.betas)):
                for tm in ((True, False) if len(shape) == 1 else (True,)):
                    h = np.asarray(lib.h(m, tm_2d=tm))
                    e = np.asarray(lib.e(m, tm_2d=tm)) if len(shape) == 1 else np.asarray(lib.e(m))
                    s = flux(e, h)
                    if abs(s) < 1e-3 * np.sqrt(np.sum(np.abs(e) ** 2) * np.sum(np.abs(h) ** 2)):
                        ck.count("no power")
                        continue
                    for use_jax in (False, True):
                        fn = lib.measure_fn(m, use_jax=use_jax, tm_2d=tm)
                        label = f"mode {m} of {eps.tolist()} wavelength {wl} tm={tm} jax={use_jax}"
                        for scale in (1, -2.5j, 0.3 + 0.4j):
                            ck.close(np.asarray(fn(scale * e, scale * h)), [scale, 0], f"own field times {scale}: {label}", TOL, key="forward")
                            ck.close(np.asarray(fn(scale * e, -scale * h)), [0, scale], f"reversed field times {scale}: {label}", TOL, key="backward")
                        fields = np.eye(e.size).reshape((-1,) + e.shape)
                        zero = np.zeros_like(e)
                        for k in range(0, e.size):
                            v = fields[k] * np.exp(0.5j * k)
                            a, b = flux(v, h) / s / 2, np.conj(flux(e, v) / s) / 2
                            ck.trans()
                            ck.close(np.asarray(fn(v, zero)), [a, a], f"electric unit field {k}: {label}", TOL, key="e basis")
                            ck.close(np.asarray(fn(zero, v)), [b, -b], f"magnetic unit field {k}: {label}", TOL, key="h basis")
                    ck.state(shape, code, wl, m, tm)
            ck.trace()
    ck.sample({"eps": eps.tolist()})


def turned(axis):
    """grid axis of each axis of the cross section (its first, its second, its normal)"""
    return ((1, 2, 0), (0, 2, 1), (0, 1, 2))[axis]


def k_place(case, ck):
    """2D modes in 3D grids: the fields in the plane are the mode, with components and axes turned; zero elsewhere."""
    from checks.M01 import pattern, solver
    from simphox.fdfd import FDFD
    from simphox.mode import ModeLibrary
    from simphox.sim import SimCrossSection
    axis = case["axis"]
    t = turned(axis)
    sp = tuple(case["spacing"])
    for cs in ((3, 4), (4, 3), (2, 5)):
        lib = ModeLibrary(solver(cs, (sp[t[0]], sp[t[1]]), 0.6, pattern(cs, 0b001001100 % 2 ** (cs[0] * cs[1]))), 2)
        gs = [0, 0, 0]
        gs[t[0]], gs[t[1]], gs[t[2]] = cs[0] + 2, cs[1] + 1, 4
        grid = FDFD(tuple(d * x for d, x in zip(sp, gs)), sp, eps=np.ones(gs), wavelength=0.6)
        for p0, p1, pn, m in itertools.product(range(3), range(2), range(4), range(len(lib.betas))):
            lo = [0, 0, 0]
            lo[t[0]], lo[t[1]], lo[t[2]] = p0, p1, pn
            size, center = [0, 0, 0], [0, 0, 0]
            for a, w in ((t[0], cs[0]), (t[1], cs[1])):
                size[a], center[a] = sp[a] * w, sp[a] * (lo[a] + w // 2) + 1e-6
            center[axis] = sp[axis] * pn + 1e-6
            want = np.zeros((3,) + tuple(gs), complex)
            h, e = np.asarray(lib.h(m)), np.asarray(lib.e(m))
            sign = [1, 1, -1 if axis == 1 else 1]  # along y the turned axes are left-handed: the mode points to -y
            for c, i, j in itertools.product(range(3), range(cs[0]), range(cs[1])):
                at = [0, 0, 0]
                at[t[0]], at[t[1]], at[t[2]] = p0 + i, p1 + j, pn
                want[(t[c],) + tuple(at)] = sign[c] * e[c, i, j, 0]
            ck.trans()
            label = f"mode {m} of a {cs} cross section placed at {lo} normal to {axis}"
            got = lib.place(m, grid, tuple(center), tuple(size))
            ck.close(got, want, label, 1e-9, key=f"place {axis}")
            section = SimCrossSection(lib, tuple(center), tuple(size), 0.6)
            ck.close(section.place(m, grid), want, f"{label} (cross section)", 1e-9, key=f"section {axis}")
            ck.check(section.prop_axis == axis, f"{label}: propagates along {section.prop_axis}", key="axis")
            for use_jax in (False, True):
                back = np.asarray(grid.view_fn(tuple(center), tuple(size), use_jax)(got))
                ck.close(back, e * np.reshape(sign, (3, 1, 1, 1)), f"{label}: viewed again (jax={use_jax})", 1e-9, key=f"place and view {axis}")
            for use_h in (True, False):
                prof = np.asarray(section.profile(m, use_h=use_h))
                f = h if use_h else np.asarray(lib.e(m))
                w = np.zeros((3,) + tuple(np.where(np.arange(3) == axis, 1, [cs[t.index(x)] if t.index(x) < 2 else 1 for x in range(3)])), complex)
                for c in range(3):
                    w[t[c]] = sign[c] * f[c].transpose([t.index(x) for x in range(3)])
                ck.close(prof, w, f"{label}: profile use_h={use_h}", 1e-9, key=f"profile {axis}")
            ck.state(axis, sp, cs, p0, p1, pn, m)
        ck.trace()


def k_place2(case, ck):
    """1D modes in 2D grids."""
    from checks.M01 import pattern, solver
    from simphox.fdfd import FDFD
    from simphox.mode import ModeLibrary
    axis = case["axis"]
    other = 1 - axis
    sp = tuple(case["spacing"])
    for n, code in ((5, 4), (6, 12), (7, 28)):
        lib = ModeLibrary(solver((n,), (sp[other],), 0.6, pattern((n,), code)), 2)
        gs = [0, 0]
        gs[axis], gs[other] = 5, n + 3
        grid = FDFD(tuple(d * x for d, x in zip(sp, gs)), sp, eps=np.ones(gs), wavelength=0.6)
        for p, q, m in itertools.product(range(4), range(5), range(len(lib.betas))):
            center, size = [0, 0, 0], [0, 0, 0]
            center[axis], center[other], size[other] = sp[axis] * q + 1e-6, sp[other] * (p + n // 2) + 1e-6, sp[other] * n
            want = np.zeros(gs, complex)
            for i in range(n):
                want[(q, p + i) if axis == 0 else (p + i, q)] = lib.modes[m][i]
            ck.trans()
            label = f"mode {m} of {n} pixels placed at {p, q} normal to {axis}"
            got = lib.place(m, grid, tuple(center), tuple(size))
            ck.close(got, want, label, 1e-9, key=f"place 2d {axis}")
            field = np.zeros((3,) + tuple(gs) + (1,), complex)
            field[2, ..., 0] = got
            for use_jax in (False, True):
                back = np.asarray(grid.view_fn(tuple(center), tuple(size), use_jax)(field))
                ck.close(np.abs(back), np.abs(lib.h(m)), f"{label}: viewed again (jax={use_jax})", 1e-9, key=f"view 2d {axis}")
            ck.state(axis, sp, n, p, q, m)
        ck.trace()


def compare(ck, got, section, center, size, want_eps, spacing, wl, k, label, key):
    """The library of a cut has the modes of the cut-out permittivity."""
    from checks.M01 import operator, nearest, verify
    shape = want_eps.shape
    C, f, b = operator(shape, tuple(spacing), wl, want_eps)
    want, sep = nearest(C, (2 * np.pi / wl) ** 2 * want_eps.max() * (1 + 1e-4), k)
    ck.check(np.array_equal(np.asarray(got.eps), want_eps), f"{label}: permittivity {np.asarray(got.eps).tolist()} instead of {want_eps.tolist()}", key=key + " eps")
    ck.check(np.allclose(section.center, center) and np.allclose(section.size, size) and section.wavelength == wl, f"{label}: recorded as {section.center}, {section.size}, {section.wavelength}", key=key + " record")
    if want is not None:
        verify(ck, shape, C, f, got.betas, got.modes, want, sep, label, key)


def k_cut3(case, ck):
    from simphox.fdfd import FDFD
    axis = case["axis"]
    t = turned(axis)
    sp = tuple(case["spacing"])
    gs = (5, 6, 4)
    rs = np.random.RandomState(7)
    eps = np.where(rs.rand(*gs) < 0.45, 12.0, 2.0)
    grid = FDFD(tuple(d * x for d, x in zip(sp, gs)), sp, eps=eps.copy(), wavelength=0.6)
    a, b = sorted(t[:2])
    combos = [(pa, wa, pb, wb) for wa in range(3, gs[a] + 1) for pa in range(gs[a] - wa + 1) for wb in range(3, gs[b] + 1) for pb in range(gs[b] - wb + 1)]
    for pa, wa, pb, wb in combos[case["part"]::3]:
        for pn in range(gs[axis]):
            center, size = [0, 0, 0], [0, 0, 0]
            center[a], size[a], center[b], size[b], center[axis] = sp[a] * (pa + wa // 2) + 1e-6, sp[a] * wa, sp[b] * (pb + wb // 2) + 1e-6, sp[b] * wb, sp[axis] * pn + 1e-6
            cut = np.zeros((wa, wb))
            for i, j in itertools.product(range(wa), range(wb)):
                at = [0, 0, 0]
                at[a], at[b], at[axis] = pa + i, pb + j, pn
                cut[i, j] = eps[tuple(at)]
            wl, k = (0.6, 0.8)[pn % 2], 1 + pn % 3
            section = grid.modes(tuple(center), tuple(size), wavelength=wl, num_modes=k)
            ck.trans()
            compare(ck, section.io, section, center, size, cut, (sp[a], sp[b]), wl, k, f"cut normal to {axis} at {pn}, pixels {pa}+{wa}, {pb}+{wb}, spacing {sp}", f"cut {axis}")
            ck.state(axis, sp, pa, wa, pb, wb, pn)
        ck.trace()


def k_cut2(case, ck):
    from simphox.fdfd import FDFD
    axis = case["axis"]
    gs = (9, 8)
    sp = tuple(case["spacing"])
    o = 1 - axis
    n = gs[1 - axis]
    for seed in (1, 2, 3):
        rs = np.random.RandomState(seed)
        eps = np.where(rs.rand(*gs) < 0.45, 12.0, 2.0)
        grid = FDFD(tuple(d * x for d, x in zip(sp, gs)), sp, eps=eps.copy(), wavelength=0.6)
        for w in range(4, n + 1):
            for p, q in itertools.product(range(n - w + 1), range(gs[axis])):
                center, size = [0, 0, 0], [0, 0, 0]
                center[1 - axis], size[1 - axis], center[axis] = sp[o] * (p + w // 2) + 1e-6, sp[o] * w, sp[axis] * q + 1e-6
                cut = np.array([eps[(q, p + i) if axis == 0 else (p + i, q)] for i in range(w)])
                wl, k = (0.6, 0.8)[q % 2], 1 + q % 2
                section = grid.modes(tuple(center), tuple(size), wavelength=wl, num_modes=k)
                ck.trans()
                compare(ck, section.io, section, center, size, cut, (sp[o],), wl, k, f"cut normal to {axis} at {q}, pixels {p}+{w}, spacing {sp}", f"cut2 {axis}")
                ck.state(axis, sp, seed, w, p, q)
            ck.trace()
