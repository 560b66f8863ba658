"""A region given by centre and size is the same set of pixels in every operation of the grid."""
import itertools
import numpy as np

ASSUMPTIONS = ["regions whose edges are not exactly halfway between two roundings (binary floating point decides those)",
               "regions of zero size along an axis lie inside the grid along that axis", "dphox patterns are replaced by stand-ins with the same interface (dphox is not installed)"]


def BOUNDS(tier):
    return ("all grids of 1..4 pixels per axis (3D: 1..3) x spacings (binary and decimal, anisotropic) x every region with centre on a quarter-pixel lattice around the grid and every size: "
            "slice, mask, set_eps, mask_fn, view_fn (numpy, JAX); sequences of two edits; every fill height; every placement of a component")


def cases(tier, seed):
    out = []
    m = 4 if tier == "quick" else 5
    for s in itertools.product(range(1, m + 1), repeat=2):
        for sp in ((1.0, 1.0), (0.1, 0.3)):
            out.append({"kind": "region", "shape": s, "spacing": sp})
    for s in itertools.product(range(1, 4), repeat=3):
        out.append({"kind": "region", "shape": s, "spacing": (0.1, 0.2, 0.07) if sum(s) % 2 else (1.0, 1.0, 1.0)})
    for n in range(2, 7):
        for d in (1.0, 0.1):
            out.append({"kind": "region", "shape": (n,), "spacing": (d,)})
    out += [{"kind": "view", "shape": s, "spacing": sp} for s in ((4, 5), (3, 4, 5), (2, 2, 3), (5, 1)) for sp in ((1.0, 1.0, 1.0), (0.1, 0.2, 0.3))]
    out += [{"kind": "fill"}, {"kind": "add"}, {"kind": "pairs", "shape": (3, 3)}, {"kind": "pairs", "shape": (2, 2, 2)}, {"kind": "forms"}]
    return sorted(out, key=lambda c: -int(np.prod(c.get("shape", (1,)))))


def axis_range(n, d, c, w):
    """Pixels along one axis: w pixels around the pixel at c (in pixels), cut off at the grid; one pixel if w == 0."""
    c, w = int(np.floor(c + 0.5)), int(np.floor(w + 0.5))
    lo = c - w // 2
    hi = lo + w
    if w == 0:
        return [c]
    return [i for i in range(lo, hi) if 0 <= i < n]


def pixels(shape, c, w):
    return [axis_range(n, 0, c[a] if n is not None else 0, w[a]) for a, n in enumerate(shape)]


def grid(shape, spacing, **kw):
    from simphox.grid import Grid
    return Grid(tuple(a * b for a, b in zip(shape, spacing)), tuple(spacing), **kw)


def regions(shape, tier):
    """(centre, size) in pixels; zero sizes only with the centre inside."""
    per = []
    for n in shape:
        cs = [x / 4 for x in range(-3, 4 * n + 4)] if n < 3 and len(shape) < 3 else [x / 2 + 0.25 for x in range(-2, 2 * n + 1)] + [float(x) for x in range(0, n + 1)]
        if len(shape) == 3:
            cs = [-0.75] + [float(x) for x in range(0, n)] + [x + 0.75 for x in range(0, n)]
        ws = list(range(0, n + 2)) if len(shape) < 3 else list(range(0, n + 1))
        if len(shape) == 2 and max(shape) > 3 and tier == "quick":
            cs = cs[::2] + [float(n // 2)]
        opts = []
        for c, w in itertools.product(cs, ws):
            if abs((c % 1) - 0.5) < 1e-9:
                continue
            if w == 0 and not 0 <= int(np.floor(c + 0.5)) < n:
                continue
            opts.append((c, w))
        per.append(opts)
    return itertools.product(*per)


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def k_region(case, ck):
    shape, spacing = tuple(case["shape"]), tuple(case["spacing"])
    nd = len(shape)
    g = grid(shape, spacing)
    ck.close(np.array(g.shape), np.array(shape), f"pixels of a grid of {shape} x {spacing}", key="shape")
    total = 0
    for opts in regions(shape, ck.tier):
        total += 1
        if nd == 3 and ck.tier == "quick" and total % (1 + int(np.prod(shape)) // 3):
            continue
        c = [o[0] for o in opts] + [0.0] * (3 - nd)
        w = [o[1] for o in opts] + [0] * (3 - nd)
        ranges = [axis_range(shape[a] if a < nd else 1, 0, c[a], w[a]) for a in range(3)]
        center = tuple(c[a] * (spacing[a] if a < nd else 1) for a in range(3))
        size = tuple(w[a] * (spacing[a] if a < nd else 0) for a in range(3))
        ck.state(shape, spacing, center, size)
        sel = np.zeros(shape + (1,) * (3 - nd), bool)
        sel[np.ix_(*ranges)] = True
        sel = sel.reshape(shape)
        label = f"region centre {center} size {size} of a {shape} grid, spacing {spacing}"
        m = g.mask(center, size)
        ck.close(np.asarray(m), sel.astype(float), f"mask of the {label}", key="mask")
        for squeezed in (True, False):
            s = g.slice(center, size, squeezed=squeezed)
            a = np.arange(int(np.prod(shape))).reshape(shape + (1,) * (3 - nd))
            got = np.atleast_1d(a[s])
            ck.check(sorted(got.ravel().tolist()) == sorted(a[sel.reshape(a.shape)].tolist()), f"slice (squeezed={squeezed}) of the {label} selects {got.ravel().tolist()}", key="slice")
            want_shape = tuple(len(r) for k, r in enumerate(ranges) if not (squeezed and w[k] == 0))
            ck.check(np.shape(a[s]) == want_shape, f"slice (squeezed={squeezed}) of the {label} has shape {np.shape(a[s])}", key="slice shape")
        base = 1 + np.arange(int(np.prod(shape))).reshape(shape) * 0.5
        h = grid(shape, spacing, eps=base.copy())
        ret = h.set_eps(center, size, 7.25)
        ck.close(h.eps, np.where(sel, 7.25, base), f"set_eps of the {label}", 1e-12, key="set_eps")
        ck.check(ret is h, "set_eps returns the grid", key="chaining")
        h = grid(shape, spacing, eps=base.copy())
        rho = -base
        ck.close(np.asarray(h.mask_fn(size, center)(rho)), np.where(sel, rho, base), f"mask_fn of the {label}", 1e-12, key="mask_fn")
        ck.trans(5)
        ck.trace()
        ck.outcome(shape, sel.tobytes())
    # the default region of the mask function is centred
    g = grid(shape, spacing)
    ck.close(g.center[:nd], np.array(shape) * np.array(spacing) / 2, "centre", 1e-9, key="centre")
    ck.raises(lambda: g.slice((0, 0), (1, 1, 0)), "a centre of two numbers", ValueError, key="bad region")
    ck.raises(lambda: g.slice((0, 0, 0), (1, 1)), "a size of two numbers", ValueError, key="bad region")
    ck.sample({"shape": shape})


def k_view(case, ck):
    """Views of fields: components and axes are turned so that the third is normal to the region."""
    from itertools import product
    shape = tuple(case["shape"])
    nd = len(shape)
    spacing = tuple(case["spacing"])[:nd]
    g = grid(shape, spacing)
    s3 = shape + (1,) * (3 - nd)
    rs = np.random.RandomState(0)
    field = rs.randn(3, *s3) + 1j * rs.randn(3, *s3)
    order = {0: (1, 2, 0), 1: (0, 2, 1), 2: (0, 1, 2)}
    for ax in range(nd):
        per = []
        for a in range(nd):
            n = shape[a]
            if a == ax:
                per.append([(float(c), 0) for c in range(n)] + [(c + 0.25, 0) for c in range(n)])
            else:
                per.append([(c, w) for c in ([float(x) for x in range(0, n)] + [x + 0.75 for x in range(n)] + [-0.75]) for w in range(1, n + 2)])
        for k, opts in enumerate(product(*per)):
            if ck.tier == "quick" and nd == 3 and k % 5:
                continue
            c = [o[0] for o in opts] + [0.0] * (3 - nd)
            w = [o[1] for o in opts] + [0] * (3 - nd)
            ranges = [axis_range(s3[a], 0, c[a], w[a]) for a in range(3)]
            center = tuple(c[a] * (spacing[a] if a < nd else 1) for a in range(3))
            size = tuple(w[a] * (spacing[a] if a < nd else 0) for a in range(3))
            o = order[ax]
            want = np.stack([field[o[i]][np.ix_(*ranges)].transpose(o) for i in range(3)])
            ck.state(shape, spacing, center, size)
            for use_jax in (False, True) if k % 7 == 0 else (False,):
                v = g.view_fn(center, size, use_jax=use_jax)
                ck.close(np.asarray(v(field)), want, f"view centre {center} size {size} of a {shape} grid, spacing {spacing}, jax={use_jax}", 1e-12, key="view")
                ck.trans()
            ck.trace()
            ck.outcome(shape, ax, tuple(map(tuple, ranges)))
    if nd == 3:
        ck.raises(lambda: g.view_fn(tuple(g.center), tuple(g.size)), "view of a volume", ValueError, key="volume")


def k_fill(case, ck):
    from simphox.fdfd import FDFD
    for nd, n, d in itertools.product((1, 2, 3), (2, 5, 12, 37), (1.0, 0.1, 0.02, 0.3, 0.07, 1 / 3)):
        if n > 12 and nd == 3:
            continue
        shape = (2,) * (nd - 1) + (n,)
        for h4 in range(0, 4 * n + 4):
            h = h4 / 4 * d
            if h4 % 4 and n > 12:
                continue
            g = grid(shape, (0.5,) * (nd - 1) + (d,))
            base = g.eps * 1.5 + np.arange(n)
            g.eps = base.copy()
            ret = g.fill(h, 9.5)
            want = base.copy()
            want[..., : (h4 // 4 if h4 > 0 else None)] = 9.5
            ck.state(nd, n, d, h4)
            ck.close(g.eps, want, f"fill to {h} of {n} pixels of {d} in {nd}D", 1e-12, key="fill")
            ck.check(ret is g, "fill returns the grid", key="chaining")
            ck.trans()
            ck.trace()
            ck.outcome(nd, n, h4)
    del FDFD


class Port:
    def __init__(self, x, y, a, w):
        self.xya, self.w = (x, y, a), w


class Pattern:
    """Stand-in for a dphox pattern: a rectangle of whole pixels."""

    def __init__(self, lo, hi, spacing):
        self.lo, self.hi, self.sp = lo, hi, spacing
        self.bounds = (lo[0] * spacing[0], lo[1] * spacing[1], hi[0] * spacing[0], hi[1] * spacing[1])
        self.size = (self.bounds[2] - self.bounds[0], self.bounds[3] - self.bounds[1])
        self.port = {"a0": Port(self.bounds[0], self.bounds[1], 180, 0.5), "b0": Port(self.bounds[2], self.bounds[3], 0, 0.25)}

    def mask(self, shape, spacing):
        m = np.zeros(tuple(shape))
        m[max(self.lo[0], 0):self.hi[0], max(self.lo[1], 0):self.hi[1]] = 1
        return m


def k_add(case, ck):
    import simphox.fdfd as fd
    import simphox.fdtd as ft
    shape2 = (4, 3)
    for spacing in ((1.0, 1.0), (0.1, 0.3)):
        for lo, hi in itertools.product(itertools.product(range(-1, 4), range(-1, 3)), itertools.product(range(1, 6), range(1, 5))):
            if lo[0] >= hi[0] or lo[1] >= hi[1]:
                continue
            p = Pattern(lo, hi, spacing)
            g = grid(shape2, spacing)
            base = 1 + 0.5 * np.arange(12).reshape(shape2)
            g.eps = base.copy()
            inside = lo[0] >= 0 and lo[1] >= 0 and hi[0] <= 4 and hi[1] <= 3
            ck.state(spacing, lo, hi)
            ck.trans()
            if p.bounds[2] > g.size[0] and hi[0] <= 4 or p.bounds[3] > g.size[1] and hi[1] <= 3:
                continue  # rounding of the stand-in's own bounds
            if not inside:
                ck.raises(lambda: g.add(p, 12.0, 0.0, 0.0), f"component from {lo} to {hi} of a {shape2} grid", ValueError, key="outside")
                ck.close(g.eps, base, "rejected component changed the grid", 1e-12, key="outside")
                continue
            ret = g.add(p, 12.0, 0.25, 0.5)
            want = base.copy()
            want[lo[0]:hi[0], lo[1]:hi[1]] = 12.0
            ck.close(g.eps, want, f"component from {lo} to {hi}", 1e-12, key="add 2d")
            ck.check(ret is g and g.components[-1] is p, "add returns the grid and records the component", key="chaining")
            q = {k: (v.x, v.y, v.a, v.w, v.z, v.h) for k, v in g.port.items()}
            b = p.bounds
            ck.check(q == {"a0": (b[0], b[1], 180, 0.5, 0.5, 0.5), "b0": (b[2], b[3], 0, 0.25, 0.5, 0.5)}, f"ports {q}", key="ports")
            ck.trace()
            ck.outcome(lo, hi)
    for dz, nz in ((0.1, 7), (0.3, 5), (1.0, 4), (0.07, 9)):
        for z0, t in itertools.product(range(nz), range(0, nz + 1)):
            if z0 + t > nz:
                continue
            sp_ = (0.5, 0.25, dz)
            g = grid((3, 3, nz), sp_)
            base = 1 + 0.5 * np.arange(9 * nz).reshape(3, 3, nz)
            g.eps = base.copy()
            p = Pattern((1, 0), (3, 2), sp_)
            g.add(p, 12.0, z0 * dz, t * dz)
            want = base.copy()
            want[1:3, 0:2, z0:z0 + t] = 12.0
            ck.state("add3", dz, z0, t)
            ck.close(g.eps, want, f"component of {t} layers from {z0} of {nz} layers of {dz}", 1e-12, key="add 3d")
            ck.check(all(abs(v.z - (z0 + t / 2) * dz) < 1e-9 and abs(v.h - t * dz) < 1e-9 for v in g.port.values()), "port heights", key="ports")
            ck.trans()
            ck.trace()
    # whole simulations from a component
    for mod, cls, kw in ((fd, "FDFD", {"wavelength": 1.55}), (ft, "FDTD", {})):
        if not hasattr(mod, "DPHOX_INSTALLED"):
            continue
        old, mod.DPHOX_INSTALLED = mod.DPHOX_INSTALLED, True
        try:
            for three, rib, sub, zmin, spacing in itertools.product((False, True), (0.0, 0.2), (0.0, 0.3), (None, 0.0, 0.5, 1.0), (0.1, "list")):
                if not three and (rib or sub or zmin):
                    continue
                sp_ = (0.1, 0.1, 0.1)
                p = Pattern((10, 12), (20, 18), sp_)
                pml_ = (0.4, 0.4, 0.4) if three else (0.4, 0.4)
                p.size = (1.0, 0.6)  # boundary of 10 and 12 pixels
                sim = getattr(mod, cls).from_pattern(p, core_eps=12.0, clad_eps=2.0, spacing=list(sp_[:len(pml_)]) if spacing == "list" else spacing, boundary=(1.0, 1.2), pml=pml_, **({} if zmin is None else {"component_zmin": zmin}),
                                                     component_t=0.2 if three else 0.0, rib_t=rib, sub_z=sub, height=1.2 if three else 0, bg_eps=1.5, name="n", **kw)
                shape = (30, 30) + ((12,) if three else ())
                want = np.ones(shape) * 1.5
                if three:
                    zr, zs = int(round((rib + sub) * 10)), int(round(sub * 10))
                    want[..., :(zs or None)] = 2.0  # without a substrate everything around the component is cladding
                    want[..., zs:zr] = 12.0
                    zc = zs if zmin is None else int(round(zmin * 10))
                    want[10:20, 12:18, zc:zc + 2] = 12.0
                else:
                    want[:] = 2.0
                    want[10:20, 12:18] = 12.0
                ck.state(cls, three, rib, sub, zmin, spacing)
                ck.close(sim.eps, want, f"{cls}.from_pattern three={three} rib={rib} substrate={sub} zmin={zmin} spacing={spacing}", 1e-12, key="from_pattern")
                ck.check(tuple(sim.pml_shape) == (4,) * len(shape) and set(sim.port) == {"a0", "b0"} and sim.name == "n", "layers, ports and name of the simulation", key="from_pattern")
                ck.trans()
                ck.trace()
        finally:
            mod.DPHOX_INSTALLED = old


def k_pairs(case, ck):
    """Sequences of two edits of the same grid: later edits win where they overlap, and nothing else changes."""
    shape = tuple(case["shape"])
    nd = len(shape)
    ops = []
    for c in itertools.product(*[[0.0, n // 2 + 0.0, n - 0.75] for n in shape]):
        for w in itertools.product(*[[1, n] for n in shape]):
            ops.append((c, w))
    ops = ops[:: 1 if nd == 2 else 5]
    for (i, a), (j, b) in itertools.product(enumerate(ops), repeat=2):
        if ck.tier == "quick" and (i + 3 * j) % 3:
            continue
        g = grid(shape, (0.5,) * nd)
        model = np.ones(shape)
        for (c, w), v in ((a, 2.0), (b, 3.0)):
            g.set_eps(tuple(x * 0.5 for x in c) + (0,) * (3 - nd), tuple(x * 0.5 for x in w) + (0,) * (3 - nd), v)
            ranges = [axis_range(shape[k], 0, c[k], w[k]) for k in range(nd)]
            model[np.ix_(*ranges)] = v
            ck.trans()
        ck.state(shape, i, j)
        ck.close(g.eps, model, f"edits {a} then {b} of a {shape} grid", 1e-12, key="pairs")
        ck.trace()
        ck.outcome(model.tobytes())


def strided(a):
    b = np.zeros(tuple(2 * k for k in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


FORMS = [("integers", lambda a: a.astype(int)), ("bytes", lambda a: a.astype(np.uint8)), ("flags", lambda a: a.astype(bool)), ("single precision", lambda a: a.astype(np.float32)),
         ("complex numbers", lambda a: a.astype(complex)), ("column-major", np.asfortranarray), ("strided", strided), ("transposed", lambda a: np.ascontiguousarray(a.T).T)]


def k_forms(case, ck):
    """Grids made from arrays of every type and memory layout: every sequence of two edits, then views."""
    for shape in ((4,), (1,), (4, 3), (3, 1), (2, 3, 2)):
        nd = len(shape)
        start = (np.arange(int(np.prod(shape))).reshape(shape) % 3 > 0) * 1.0
        edits = []
        for c, w in (((0,) * 3, (1, 1, 1)), ((1, 1, 1), (2, 2, 2)), (tuple(n // 2 for n in shape) + (0,) * (3 - nd), tuple(shape) + (0,) * (3 - nd))):
            for v in (2.5, 12.25):
                edits.append(("set", tuple(c[:nd]), tuple(w[:nd]), v))
        edits += [("fill", 1, 0, 2.5), ("fill", 2, 1, 1.75)]
        for (nm, form), (i, a), (j, b) in itertools.product(FORMS, enumerate(edits), enumerate(edits)):
            g = grid(shape, (0.5,) * nd, eps=form(start))
            model = start.copy()
            for e in (a, b):
                if e[0] == "set":
                    g.set_eps(tuple(0.5 * x for x in e[1]) + (0,) * (3 - nd), tuple(0.5 * x for x in e[2]) + (0,) * (3 - nd), e[3])
                    model[np.ix_(*[axis_range(shape[k], 0, e[1][k], e[2][k]) for k in range(nd)])] = e[3]
                else:
                    g.fill(0.5 * e[1], e[3], min_height=0.5 * e[2])
                    model[..., e[2]:e[1]] = e[3]
                ck.trans()
            ck.state(shape, nm, i, j)
            ck.close(g.eps, model, f"edits {a} then {b} of a {shape} grid made from an array of {nm}", 1e-6, key=f"array of {nm}")
        ck.trace()
