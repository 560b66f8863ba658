"""Time-domain simulations: every step is one leapfrog update of Maxwell's equations with absorbing layers and sources."""
import itertools
import numpy as np

TOL = 1e-9
ASSUMPTIONS = ["reference: leapfrog Maxwell updates on the staggered grid with convolutional absorbing layers, cell by cell, from the documented equations",
               "real positive permittivity, unit permeability, periodic outer boundaries", "layers of at least 4 cells (fewer are refused)",
               "layout of the auxiliary state not claimed: states are reached by histories from the zero auxiliary state"]
PLAIN = (((5,), (0.5,)), ((6,), (0.3,)), ((2, 3), (0.5, 0.5)), ((4, 5), (0.5, 0.4)), ((5, 4), (0.2, 0.7)), ((3, 4, 2), (0.5, 0.4, 0.3)), ((2, 3, 3), (0.3, 0.3, 0.3)))
PMLS = (((10,), (0.5,), (4,)), ((13,), (0.2,), (5,)), ((10, 11), (0.5, 0.4), (4, 4)), ((12, 10), (0.3, 0.3), (5, 4)), ((11, 14), (0.3, 0.2), (4, 6)))
CUBES = (((10, 10, 10), (0.5, 0.4, 0.3), (4, 4, 4)), ((10, 11, 13), (0.3, 0.3, 0.3), (4, 4, 5)))


def BOUNDS(tier):
    return (f"complete bases of electric and magnetic impulses x {6 if tier == 'quick' else 12} steps on {len(PLAIN)} grids without and {len(PMLS)} with absorbing layers, impulses at {'a 5^3 lattice' if tier == 'quick' else 'every cell'} of 3D grids "
            "with layers, numpy and JAX; every rectangle/mask of sources x fields; all source and permittivity histories of depth 4; long runs against energy conservation and reflections; port sources and measurements at every step")


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for j in (False, True):
        out += [{"kind": "basis", "grid": i, "pml": False, "jax": j} for i in range(len(PLAIN))]
        out += [{"kind": "basis", "grid": i, "pml": True, "jax": j, "part": p, "params": k} for i in range(len(PMLS)) for p in range(2) for k in range(2)]
        out += [{"kind": "cube", "grid": i, "jax": j, "part": p, "of": 2 if q else 16} for i in range(1 if q and j else 2) for p in range(2 if q else 16)]
        out += [{"kind": "sources", "jax": j, "grid": i} for i in range(3)]
        out += [{"kind": "history", "jax": j, "first": f} for f in range(6)]
        out += [{"kind": "port", "jax": j, "orient": o, "layout": k} for o in "xy" for k in range(2)]
    out += [{"kind": "energy", "grid": i} for i in range(len(PLAIN))]
    out += [{"kind": "absorb", "comp": c, "field": f} for c in range(3) for f in "eh"]
    out += [{"kind": "guided", "orient": o, "pol": t, "wavelength": w} for o in "xy" for t in ("tm", "te", "3d") for w in ((1.55,) if q else (1.55, 1.4))]
    out += [{"kind": "viz", "nd": d} for d in (2, 3)]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def permittivity(shape, which=0):
    x = np.arange(int(np.prod(shape)))
    return np.ones(shape) if which == 2 else (1 + ((x * (7 + 4 * which) + 3) % 11) / 3.0).reshape(shape)


def make(shape, spacing, pml, jax, eps=None, params=None, **kw):
    from simphox.fdtd import FDTD
    kw = dict(kw) if params is None else dict(kw, pml_params=params)
    size = tuple(n * d for n, d in zip(shape, spacing))
    return FDTD(size, tuple(spacing), eps=permittivity(shape) if eps is None else eps, pml=None if pml is None else tuple(p * d for p, d in zip(pml, spacing)), use_jax=jax, **kw)


class Reference:
    def __init__(self, shape, spacing, eps, pml=None, params=(3, -25, 1), sparse=False):
        from mc.refem import Ref, stretch, yee, shape3
        self.shape, self.nd = shape3(shape), len(shape)
        self.dt = 1 / np.sqrt(sum(1 / d ** 2 for d in spacing))
        r = Ref(shape, spacing, sparse=sparse)
        self.f = r.f
        self.b = r.b
        self.set_eps(eps)
        self.coef = {}
        if pml is not None:
            for a in range(self.nd):
                for which, s in enumerate(stretch(self.shape[a], spacing[a], pml[a], 1.0, params)):
                    sigma = -np.imag(s)
                    b = np.exp(-(sigma + 1e-8) * self.dt)
                    c = (b - 1) * sigma / (sigma + 1e-8)
                    full = [1, 1, 1]
                    full[a] = -1
                    self.coef[a, which] = b.reshape(full), c.reshape(full)

    def set_eps(self, eps):
        from mc.refem import yee
        self.eps = yee(np.asarray(eps).reshape(self.shape))

    def zero(self, batch=()):
        z = np.zeros((3,) + self.shape + batch, complex)
        return {"e": z, "h": z.copy(), "psi": {}}

    def derivative(self, d, a, v):
        flat = v.reshape(int(np.prod(self.shape)), -1)
        return np.asarray(d[a] @ flat).reshape(v.shape)

    def curl(self, f, which, psi):
        d = self.f if which == 0 else self.b
        out = [0, 0, 0]
        for a in range(3):
            for c in range(3):
                if a == c:
                    continue
                g = self.derivative(d, a, f[c])
                if (a, which) in self.coef:
                    b, k = [x.reshape(x.shape + (1,) * (g.ndim - 3)) for x in self.coef[a, which]]
                    psi[a, c, which] = b * psi.get((a, c, which), 0) + k * g
                    g = g + psi[a, c, which]
                o = 3 - a - c
                out[o] = out[o] + (g if (o + 1) % 3 == a else -g)
        return np.stack(out)

    def step(self, s, j=None, m=None):
        psi = dict(s["psi"])
        ex = self.eps.reshape(self.eps.shape + (1,) * (s["e"].ndim - 4))
        e = s["e"] + self.dt / ex * (self.curl(s["h"], 1, psi) - (0 if j is None else j))
        h = s["h"] - self.dt * (self.curl(e, 0, psi) + (0 if m is None else m))
        return {"e": e, "h": h, "psi": psi}


def impulses(shape, cells=None):
    n = 3 * int(np.prod(shape))
    for f in (0, 1):
        for i in range(n) if cells is None else cells:
            yield f, i


def compare(ck, sim, ref, todo, steps, label, key, jax):
    """Impulse responses of the simulation for a list of (field, flat index) against the reference."""
    shape = (3,) + ref.shape
    todo = list(todo)
    if jax:
        import jax as J
        import jax.numpy as jnp
        zero = sim.zero_state

        @J.jit
        def runs(e, h):
            def one(e, h):
                s, out = (e, h, zero[2], zero[3]), []
                for _ in range(steps):
                    s = sim.step(s, [])
                    out.append(jnp.stack(s[:2]))
                return jnp.stack(out)
            return J.vmap(one)(e, h)
    size = max(1, 60000 // int(np.prod(shape)))
    size = min(size, len(todo))
    for lo in range(0, len(todo), size):
        part = todo[lo:lo + size]
        e0, h0 = np.zeros((len(part),) + shape, complex), np.zeros((len(part),) + shape, complex)
        for k, (f, i) in enumerate(part):
            (e0, h0)[f].reshape(len(part), -1)[k, i] = 1 + 0.5j * (i % 3)
        st = ref.zero((len(part),))
        st["e"], st["h"] = np.moveaxis(e0, 0, -1), np.moveaxis(h0, 0, -1)
        want = []
        for _ in range(steps):
            st = ref.step(st)
            want.append(np.stack([np.moveaxis(st["e"], -1, 0), np.moveaxis(st["h"], -1, 0)]))
        want = np.stack(want)                    # step, field, impulse, ...
        if jax:
            pad = size - len(part)
            got = np.asarray(runs(np.concatenate([e0, np.zeros((pad,) + shape, complex)]), np.concatenate([h0, np.zeros((pad,) + shape, complex)])))[:len(part)]
            got = np.moveaxis(got, 0, 2)
        else:
            got = np.zeros(want.shape, complex)
            for k in range(len(part)):
                zero = sim.zero_state
                s = (e0[k], h0[k], zero[2], zero[3])
                for t in range(steps):
                    s = sim.step(s, [])
                    got[t, 0, k], got[t, 1, k] = s[0], s[1]
        ck.trans(len(part) * steps)
        diff = np.abs(got - want).max(axis=tuple(range(3, got.ndim)))
        for k, (f, i) in enumerate(part):
            ck.state(label, f, i)
            ck.outcome(float(np.round(np.abs(got[:, :, k]).sum(), 6)))
            t = int(np.argmax(diff[:, :, k].max(axis=1) > TOL))
            ck.check(diff[:, :, k].max() <= TOL, f"{label}: impulse in {'eh'[f]} at {np.unravel_index(i, shape)} differs by {diff[:, :, k].max():.3g} (first at step {t + 1})", key=key)
        ck.trace(len(part))


def k_basis(case, ck):
    if case["pml"]:
        shape, sp, pml = PMLS[case["grid"]]
        params = ((3, -25, 1), (2, -12, 1.5))[case["params"]]
        label = f"grid {shape} with layers {pml} and parameters {params}, jax={case['jax']}"
        sim, ref = make(shape, sp, pml, case["jax"], params=None if case["params"] == 0 else params), Reference(shape, sp, permittivity(shape), pml, params)
        todo = [x for x in impulses(ref.shape) if x[1] % 2 == case["part"]]
    else:
        shape, sp = PLAIN[case["grid"]]
        label = f"grid {shape}, jax={case['jax']}"
        sim, ref = make(shape, sp, None, case["jax"]), Reference(shape, sp, permittivity(shape))
        todo = impulses(ref.shape)
    ck.check(abs(sim.dt - ref.dt) < 1e-12, f"{label}: time step {sim.dt}, expected {ref.dt}", key="dt")
    compare(ck, sim, ref, todo, 6 if ck.tier == "quick" else 12, label, f"step pml={case['pml']}", case["jax"])


def k_cube(case, ck):
    shape, sp, pml = CUBES[case["grid"]]
    sim, ref = make(shape, sp, pml, case["jax"]), Reference(shape, sp, permittivity(shape), pml, sparse=True)
    if ck.tier == "quick":
        pick = [sorted({0, 3, 4, n // 2 + 1, n - 1}) for n in shape]
        cells = [np.ravel_multi_index((c,) + x, (3,) + shape) for c in range(3) for x in itertools.product(*pick)]
    else:
        cells = range(3 * int(np.prod(shape)))
    todo = [x for i, x in enumerate(impulses(shape, cells)) if i % case["of"] == case["part"]]
    compare(ck, sim, ref, todo, 3, f"grid {shape} with layers, jax={case['jax']}", "step 3D", case["jax"])


def arr(x):
    return np.array(x, copy=True) if x is not None else None


def flatten(state):
    out = []

    def walk(x):
        if x is None:
            out.append(None)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        else:
            out.append(np.array(x, copy=True))
    walk(state)
    return out


def same(a, b):
    return len(a) == len(b) and all((x is None and y is None) or (x is not None and y is not None and x.shape == y.shape and np.array_equal(x, y)) for x, y in zip(a, b))


def pulse(shape, k=0):
    x = np.arange(int(np.prod(shape)))
    return (np.cos(1.0 + 2.3 * x + k) + 1j * np.sin(0.7 * x * x + k)).reshape(shape)


def k_sources(case, ck):
    """Sources enter exactly in their region: all rectangles, integer indices and masks, fields, and pairs of sources."""
    import jax.numpy as jnp
    shape, sp, pml = (((3, 4), (0.5, 0.4), None), ((3, 2, 3), (0.5, 0.4, 0.3), None), ((10, 11), (0.5, 0.4), (4, 4)))[case["grid"]]
    sim, ref = make(shape, sp, pml, case["jax"]), Reference(shape, sp, permittivity(shape), pml)
    s3 = ref.shape
    axes = []
    for n in s3:
        if n <= 4:
            axes.append([slice(i, j) for i in range(n) for j in range(i + 1, n + 1)] + ([slice(None)] if n > 1 else []) + ([0] if n == 1 else [n - 1]))
        else:
            axes.append([slice(0, 2), slice(n - 1, n), slice(4, 7), 5, slice(None)])
    regions = [(slice(None),) + r for r in itertools.product(*axes)] + [(c,) + r for c in range(3) for r in itertools.product(*[a[:2] for a in axes])]
    cells = 3 * int(np.prod(s3))
    for m in range(8):
        mask = np.array([(i * (m + 3) // 2) % (m + 2) == 0 for i in range(cells)]).reshape((3,) + s3)
        regions.append(mask)
    if case["jax"]:
        regions = regions[::7]
    base = pulse((3,) + s3, 1), pulse((3,) + s3, 2)
    zero = sim.zero_state
    put = (lambda x: jnp.array(x)) if case["jax"] else (lambda x: np.array(x))
    blank = ref.zero()
    plain = ref.step(dict(blank, e=base[0], h=base[1]))
    for ri, region in enumerate(regions):
        view = np.zeros((3,) + s3)[region]
        values = pulse(view.shape, ri)
        full = np.zeros((3,) + s3, complex)
        full[region] = values
        rl = [str(x).replace("slice", "") for x in region] if isinstance(region, tuple) else f"mask {ri}"
        for which in ("j", "m", "jm"):
            src = (put(values) if "j" in which else None, put(2 * values) if "m" in which else None, region)
            before = flatten(src[:2])
            start = (put(base[0]), put(base[1]), zero[2], zero[3])
            held = flatten(start)
            got = sim.step(start, [src])
            want = ref.step(dict(blank, e=base[0], h=base[1]), full if "j" in which else None, 2 * full if "m" in which else None)
            ck.trans()
            ck.state(case["grid"], ri, which)
            label = f"{shape}: source {which} in {rl}, jax={case['jax']}"
            for k in (0, 1):
                ck.close(got[k], want["eh"[k]], f"{label}: field {'eh'[k]}", TOL, key="source")
            ck.check(same(held, flatten(start)), f"{label}: the step changed the state it was given", key="step changes its input")
            ck.check(same(before, flatten(src[:2])), f"{label}: the step changed the source it was given", key="step changes its source")
    # pairs of overlapping sources add up
    regs = regions[:: max(1, len(regions) // 6)][:6]
    for r1, r2 in itertools.product(regs, repeat=2):
        fulls, srcs = [], []
        for k, r in enumerate((r1, r2)):
            v = pulse(np.zeros((3,) + s3)[r].shape, k)
            f = np.zeros((3,) + s3, complex)
            f[r] = v
            fulls.append(f)
            srcs.append((put(v), put(v) if k else None, r))
        got = sim.step((put(base[0]), put(base[1]), zero[2], zero[3]), srcs)
        want = ref.step(dict(blank, e=base[0], h=base[1]), fulls[0] + fulls[1], fulls[1])
        ck.trans()
        for k in (0, 1):
            ck.close(got[k], want["eh"[k]], f"{shape}: sources in {r1} and {r2}: field {'eh'[k]}", TOL, key="sources add")
    got = sim.step((put(base[0]), put(base[1]), zero[2], zero[3]), [])
    for k in (0, 1):
        ck.close(got[k], plain["eh"[k]], f"{shape}: no sources", TOL, key="no source")
    z = flatten(sim.zero_state)
    ck.check(all(x is None or not np.any(x) for x in z) and all(np.shape(x) == (3,) + s3 for x in z[:2]), f"{shape}: zero state is not zero", key="zero state")
    ck.trace()


OPS = ("rest", "j", "m", "jm", "eps", "other")


def k_history(case, ck):
    """Histories of steps, sources and permittivity edits on one simulation, with steps of another one in between; every state is reached once and
    every intermediate state is replayed, so steps depend on nothing but their arguments and the current permittivity."""
    import jax.numpy as jnp
    jax = case["jax"]
    put = (lambda x: jnp.array(x)) if jax else (lambda x: np.array(x))
    shape, sp, pml = (10, 11), (0.5, 0.4), (4, 4)
    sim, other = make(shape, sp, pml, jax), make(shape, sp, pml, jax, eps=permittivity(shape, 1), params=(2, -9, 1))
    ref = Reference(shape, sp, permittivity(shape), pml)
    oref = Reference(shape, sp, permittivity(shape, 1), pml, (2, -9, 1))
    region = (slice(None), slice(2, 7), slice(5, 9), slice(0, 1))
    full = np.zeros((3,) + ref.shape, complex)
    vals = pulse(full[region].shape, 5)
    full[region] = vals
    depth = (3 if ck.tier == "quick" else 4) if jax else (4 if ck.tier == "quick" else 5)
    start = pulse((3,) + ref.shape, 3), pulse((3,) + ref.shape, 4)

    def initial(s):
        z = s.zero_state
        return put(start[0]), put(start[1]), z[2], z[3]

    def rinit(r):
        return dict(r.zero(), e=start[0], h=start[1])

    def apply(op, node):
        st, ost, rs, ors, which = node
        if op == "other":
            return st, other.step(ost, [(put(vals), None, region)]), rs, oref.step(ors, full), which
        if op == "eps":
            return st, ost, rs, ors, (which + 1) % 3
        sim.eps = permittivity(shape, which)
        ref.set_eps(permittivity(shape, which))
        src = [] if op == "rest" else [(put(vals) if "j" in op else None, put(vals) if "m" in op else None, region)]
        return sim.step(st, src), ost, ref.step(rs, full if "j" in op else None, full if "m" in op else None), ors, which

    def walk(node, word):
        ck.state(word)
        st, ost, rs, ors, which = node
        if word:
            for name, a, b in (("simulation", st, rs), ("other simulation", ost, ors)):
                for k in (0, 1):
                    ck.close(a[k], b["eh"[k]], f"{'>'.join(word)}: {name}, field {'eh'[k]}, jax={jax}", TOL, key="history")
        if len(word) == depth:
            ck.trace()
            return
        held = flatten((st, ost))
        for op in OPS if word else [OPS[case["first"]]]:
            ck.trans()
            walk(apply(op, node), word + (op,))
        ck.check(same(held, flatten((st, ost))), f"{'>'.join(word)}: a later step changed this state, jax={jax}", key="steps change earlier states")
    walk((initial(sim), initial(other), rinit(ref), rinit(oref), 0), ())


def k_energy(case, ck):
    """Without layers a step conserves the energy of every pair of states, and the energy is positive: no state can grow."""
    shape, sp = PLAIN[case["grid"]]
    for which in range(3):
        sim = make(shape, sp, None, False, eps=permittivity(shape, which))
        ref = Reference(shape, sp, permittivity(shape, which))
        n = 3 * int(np.prod(ref.shape))
        m = np.zeros((2 * n, 2 * n), complex)
        z = sim.zero_state
        for i in range(2 * n):
            v = np.zeros(2 * n, complex)
            v[i] = 1
            s = sim.step((v[:n].reshape(z[0].shape), v[n:].reshape(z[1].shape), z[2], z[3]), [])
            m[:, i] = np.r_[np.asarray(s[0]).ravel(), np.asarray(s[1]).ravel()]
            ck.trans()
            ck.state(case["grid"], which, i)
        from mc.refem import Ref
        c = Ref(shape, sp).curl(Ref(shape, sp).f)
        q = np.zeros((2 * n, 2 * n), complex)
        q[:n, :n] = np.diag(ref.eps.ravel())
        q[n:, n:] = np.eye(n)
        q[n:, :n] = ref.dt * c / 2
        q[:n, n:] = q[n:, :n].conj().T
        ck.close(m.conj().T @ q @ m, q, f"{shape}, permittivity {which}: energy of all pairs of states after a step", 1e-9, key="energy")
        ck.check(np.linalg.eigvalsh(q).min() > -1e-9, f"{shape}, permittivity {which}: the time step is not stable", key="stability")
        ck.check(np.abs(np.linalg.eigvals(m)).max() < 1 + 1e-5, f"{shape}, permittivity {which}: a state grows by {np.abs(np.linalg.eigvals(m)).max()} per step", key="growth")
    ck.trace()


def k_absorb(case, ck):
    """Every wave that reaches the layers leaves: compared with a grid so large that nothing returns, for impulses in all components."""
    n, p, big, steps = 40, 12, 120, 110
    params = (3, -10, 1)
    runs = []
    for size in (n, big):
        sim = make((size, size), (0.1, 0.1), (p, p), False, eps=np.full((size, size), 2.25), params=params)
        pos = size // 2
        s, hist = sim.zero_state, []
        for t in range(steps):
            ck.trans()
            v = np.zeros((3, 1, 1, 1), complex)
            v[case["comp"]] = (t - 12) * np.exp(-((t - 12) / 5.0) ** 2)
            src = (v, None, (slice(None), slice(pos, pos + 1), slice(pos, pos + 1), slice(0, 1)))
            s = sim.step(s, [src if case["field"] == "e" else (None, v, src[2])])
            w = slice(pos - n // 2 + p, pos + n // 2 - p)
            hist.append(np.stack([np.asarray(s[0])[:, w, w], np.asarray(s[1])[:, w, w]]))
        runs.append(np.array(hist))
        ck.state(size)
    err = np.abs(runs[0][60:] - runs[1][60:]).max() / np.abs(runs[1]).max()
    ck.sample({"reflection": float(err)})
    ck.check(err < 0.02, f"impulse in {case['field']}{'xyz'[case['comp']]}: {err:.3g} of the wave returns from the layers", key="reflection")
    ck.trace()


PORTS = ((("a0", 1.1, 1.2, 180, 0.3), ("b0", 2.3, 1.3, 0, 0.4)), (("left", 1.1, 1.2, 180, 0.4), ("right", 2.3, 1.1, 0, 0.3), ("a1", 1.6, 1.4, 0, 0.3)))


def guide(case, jax, sp=0.1, eps_code=0):
    from simphox.grid import Port
    shape = (34, 26) if case["orient"] == "x" else (26, 34)
    eps = np.full((34, 26), 2.0)
    eps[:, 10:14 + eps_code] = 9.0
    eps[15:18, 9:15] = 6.0
    sim = make(shape, (sp, sp), (4, 4), jax, eps=eps if case["orient"] == "x" else eps.T.copy())
    ang = {180: -90, 0: 90}
    sim.port = {n: Port(x, y, a, w) if case["orient"] == "x" else Port(y, x, ang[a], w) for n, x, y, a, w in PORTS[case["layout"]]}
    return sim, Reference(shape, (sp, sp), sim.eps, (4, 4), sparse=True)


def k_guided(case, ck):
    """The mode sent in at one end of a straight waveguide is measured as the same mode leaving at the other end."""
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    d, x, cubic = 0.08, case["orient"] == "x", case["pol"] == "3d"
    n, core, pml, steps, w, z = ((30, 16, 14), (slice(5, 11), slice(5, 9)), (0.4, 0.4, 0.32), 400, 0.5, (0.56, 0.36)) if cubic else ((50, 28), (slice(10, 18),), (0.5, 0.5), 600, 0.64, ())
    turn = (lambda t: tuple(t)) if x else (lambda t: (t[1], t[0]) + tuple(t[2:]))
    eps = np.full(n, 2.1)
    eps[(slice(None),) + core] = 12.0
    L, W = n[0] * d, n[1] * d / 2
    f = FDTD(tuple(d * s for s in turn(n)), d, eps=eps if x else np.swapaxes(eps, 0, 1).copy(), pml=turn(pml), use_jax=False)
    f.pml_sep = 3
    f.port = {"in": Port(0, W, 180, w, *z) if x else Port(W, 0, -90, w, *z), "a": Port(L, W, 0, w, *z) if x else Port(W, L, 90, w, *z)}
    word = [(p, m) for p in ("a", "in") for m in (0, 1)]
    for src in word:
        flux, _ = f.run_cw_port(steps, wavelength=case["wavelength"], source_port=[src], measure_port=word, tm_2d=case["pol"] != "te")
        leaving, entering = np.abs(np.array(flux)[-80:]).mean(axis=0)
        i = word.index(("in" if src[0] == "a" else "a", src[1]))
        j = word.index((word[i][0], 1 - src[1]))
        ck.trans(steps)
        rest = max(entering[i], entering[j], leaving[j]) / leaving[i]
        ck.check(rest < 0.6, f"{case['pol']} waveguide along {case['orient']}, wavelength {case['wavelength']}, from {src}: at the other port, leaving {leaving.round(4).tolist()}, entering {entering.round(4).tolist()} of {word}", key=f"guided {case['pol']}")
        ck.state(case["orient"], case["pol"], case["wavelength"], src)
        ck.outcome(np.round(leaving, 4).tobytes())
    ck.trace()


def k_port(case, ck):
    """Runs with a harmonic port source: sources, phases, polarizations, measured ports, synchronised measurements, initial states."""
    jax = case["jax"]
    sim, ref = guide(case, jax)
    names = list(sim.port)
    first, last = names[0], names[1]
    init = (pulse((3,) + ref.shape, 1), pulse((3,) + ref.shape, 2))
    srcs = [None, first, last, (last, 0), [(first, 0)], [(first, 1)], [(first, 0), (last, 0)], [(last, 0), (first, 1)], (first, last)]
    meas = [None, first, last, [(last, 0), (first, 0)], [(first, 1), (first, 0)]]
    combos = [(s, m, 1.55, True, 3, False) for s in srcs for m in (None, last)] + [(first, m, wl, tm, f, i) for m in meas for wl in (1.55, 0.9) for tm in (True, False) for f in (3, 2) for i in (False, True)]
    if jax and ck.tier == "quick":
        combos = combos[::5]
    for src, m, wl, tm, factor, with_init, steps in [c + (4,) for c in combos] + [(first, last, 0.8, True, 3, True, 60 if jax else 900)]:
        label = f"source {src}, measured {m}, wavelength {wl}, tm {tm}, size {factor}, initial state {with_init}, {steps} steps, jax={jax}"
        kw = dict(wavelength=wl, measure_port=m, tm_2d=tm, profile_size_factor=factor)
        if src is not None:
            kw["source_port"] = src
        elif "a0" not in names:
            continue
        word = [("a0", 0)] if src is None else [(src, 0)] if isinstance(src, str) else [src] if isinstance(src, tuple) and isinstance(src[1], int) else [(x, 0) if isinstance(x, str) else x for x in src]
        z = sim.zero_state
        rs = ref.zero()
        if with_init:
            import jax.numpy as jnp
            put = jnp.array if jax else np.array
            kw["initial_state"] = (put(init[0]), put(init[1]), z[2], z[3])
            rs = dict(rs, e=init[0], h=init[1])
        seen = []
        if factor == 2:
            kw["pbar"] = lambda it: seen.append(list(it)) or it
        flux, state = sim.run_cw_port(steps, **kw)
        if factor == 2:
            ck.check(seen == [list(range(steps))], f"{label}: progress over {seen}", key="progress")
        ck.trans(steps)
        ck.state(str(src), str(m), wl, tm, factor, with_init)
        fn = sim.get_measure_fn(m, wavelength=wl, profile_size_factor=factor, tm_2d=tm)
        modes = sim.port_modes(excitation=word, profile_size_factor=factor, wavelength=wl)
        want = [np.asarray(fn((rs["e"], rs["h"])))]
        for t in range(steps):
            j, mm = np.zeros((3,) + ref.shape, complex), np.zeros((3,) + ref.shape, complex)
            for p, idx in word:
                sec = modes[p]
                phase = np.exp(2j * np.pi / wl * t * ref.dt)
                where = tuple(sec.slice(sim))
                fields = sec.io.e(idx, tm), sec.io.h(idx, tm)
                # a cross section along x has the components and axes (y, z, x), one along y (x, z, y) and points to -y
                order = (2, 0, 1) if case["orient"] == "x" else (0, 2, 1)
                for full, f in zip((j, mm), fields):
                    f = phase * f[list(order)].transpose((0,) + tuple(1 + o for o in order))
                    if case["orient"] == "y":
                        f[1] = -f[1]
                    full[where] += f.reshape(full[where].shape)
            before = rs["h"]
            rs = ref.step(rs, j, mm)
            want.append(np.asarray(fn((rs["e"], (before + rs["h"]) / 2))))
        ck.check(len(flux) == steps + 1, f"{label}: {len(flux)} measurements of {steps} steps", key="number of measurements")
        ck.close(np.array([np.asarray(f) for f in flux]), np.array(want), f"{label}: measurements", 1e-8, key="port measurements")
        ck.close(state[0], rs["e"], f"{label}: final electric field", 1e-8, key="port e")
        ck.close(state[1], rs["h"], f"{label}: final magnetic field", 1e-8, key="port h")
        ck.trace()
    # the wave of a port source moves into the device from the source, and arrives at the other port
    if case["layout"] == 0 and not jax:
        flux, state = sim.run_cw_port(220, 1.55, first)
        s = np.real(np.cross(np.asarray(state[0]), np.conj(np.asarray(state[1])), axis=0)).reshape((3,) + ref.shape)
        a = 0 if case["orient"] == "x" else 1
        p = s[a].sum(axis=(1 - a, 2))
        ck.check(p[14] > 0 and p[20] > 0, f"power in the device {p[14], p[20]} does not flow away from the source", key="direction")
        ck.check(p[6] < 0, f"power behind the source {p[6]} does not flow away from it", key="direction")


class Pipe:
    def __init__(self):
        self.sent = []

    def send(self, x):
        self.sent.append(np.array(x, copy=True))


def k_viz(case, ck):
    """Live views of a run: every interval, the permittivity, the real field and the power of the chosen component in the chosen plane."""
    from simphox.grid import Port
    jax = False
    if case["nd"] == 2:
        sim, ref = guide({"orient": "x", "layout": 0}, jax)
        keys = ["a0", "b0"]
    else:
        shape = (22, 22, 19)
        eps = np.full(shape, 2.0)
        eps[:, 9:13, 8:11] = 9.0
        eps[12, :, 5:] += 0.5
        sim = make(shape, (0.1,) * 3, (4, 4, 4), jax, eps=eps)
        sim.port = {"a0": Port(0.9, 1.1, 180, 0.3, 0.9, 0.3), "b0": Port(1.3, 1.1, 0, 0.3, 0.9, 0.3)}
        keys = ["a0", ("b0", 0), ("b0", 1), ("a0", 2)]
    steps = 5
    runs = []
    state = None
    for n in range(1, steps + 1):
        runs.append(sim.run_cw_port(n, 1.55, "a0")[1])
    for interval, use_h, axis in itertools.product((1, 2, 3), (True, False), range(3)):
        pipes = {k: (Pipe(), Pipe(), Pipe()) for k in keys}
        sim.run_cw_port(steps, 1.55, "a0", viz_pipes=pipes, viz_interval=interval, viz_h=use_h, viz_axis=axis)
        ck.trans(steps)
        ck.state(case["nd"], interval, use_h, axis)
        shown = [t for t in range(steps) if t % interval == 0]
        for k in keys:
            for pipe in pipes[k]:
                ck.check(len(pipe.sent) == len(shown), f"{len(pipe.sent)} views of {steps} steps every {interval}", key="number of views")
            for t, eps_s, field_s, power_s in zip(shown, *[p.sent for p in pipes[k]]):
                f = np.asarray(runs[t][1 if use_h else 0])[axis]
                if case["nd"] == 3:
                    name, ax = k if isinstance(k, tuple) else (k, 2)
                    cell = int(round(sim.port[name].xyz[ax] / 0.1))
                    f, e = np.take(f, cell, axis=ax), np.take(sim.eps, cell, axis=ax)
                else:
                    f, e = f[:, :, 0], sim.eps
                label = f"view of {k} at step {t}, h={use_h}, component {axis}"
                ck.close(eps_s, ((e - e.min()) / (e.max() - e.min())).T, f"{label}: permittivity", 1e-9, key="view eps")
                r = f.real.T
                if np.abs(f).max() > 1e-12:
                    ck.close(np.squeeze(field_s) * r.max(), r, f"{label}: field", 1e-6, key="view field") if r.max() > 1e-9 else None
                if np.abs(f).max() > 1e-4:
                    ck.close(np.squeeze(power_s), (np.abs(f) ** 2 / (np.abs(f) ** 2).max()).T, f"{label}: power", 1e-6, key="view power")
    ck.trace()
