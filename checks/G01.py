"""A simulation always answers for its current permittivity and ports, whatever was computed before."""
import itertools
import numpy as np

TOL = 1e-6
ASSUMPTIONS = ["reference: a fresh simulation object of the same permittivity and ports, in the same process", "the wavelength of a frequency-domain simulation is fixed at construction"]


def BOUNDS(tier):
    return (f"all sequences of <= {2 if tier == 'quick' else 3} (2D solver: 3) operations out of edits (fill, set_eps, new array, in-place edits, component, port move, absorption) and reads "
            "(average, operators, solve, sources, modes, measurement, JAX fields, time step) on 2D/3D frequency-domain, time-domain (numpy, JAX) and mode solvers; all reads are compared with a fresh object at the end")


EDITS = ("fill", "set_eps", "assign", "inplace", "scale", "component", "ports", "other", "loss")
ONLY = {"component": ("fdfd",), "ports": ("fdfd",), "loss": ("fdfd", "fdfd3")}
READS = {"fdfd": ("eps_t", "mats", "solve", "source", "measure", "jaxfields", "modes0"),
         "fdfd3": ("eps_t", "mats", "solve"), "fdtd": ("eps_t", "step"), "fdtdjax": ("eps_t", "step"), "mode": ("eps_t", "mats", "modes", "wavelength", "library")}


def cases(tier, seed):
    out = []
    for obj in READS:
        al = [e for e in EDITS if obj in ONLY.get(e, READS)] + list(READS[obj])
        depth = 3 if tier != "quick" or obj == "fdfd" else 2
        firsts = [(a,) for a in al] if depth < 3 or obj != "fdfd" else [(a, b) for a in al for b in al]
        for w in firsts:
            out.append({"obj": obj, "first": w, "depth": depth, "tier": tier})
    return sorted(out, key=lambda c: -c["depth"])


class Port:
    def __init__(self, x, y, a, w):
        self.xya, self.w = (x, y, a), w


class Pattern:
    size, bounds = (0.3, 0.2), (0.2, 0.2, 0.5, 0.4)
    port = {"a0": Port(0.3, 0.7, 180, 0.3), "b0": Port(1.3, 0.7, 0, 0.3)}

    def mask(self, shape, spacing):
        m = np.zeros(tuple(shape))
        m[2:5, 2:4] = 1
        return m


SHAPE = {"fdfd": (16, 14), "fdfd3": (4, 3, 3), "fdtd": (4, 3, 3), "fdtdjax": (10, 11), "mode": (6, 5)}


def build(obj, eps, port=None, **kw):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port as P
    from simphox.mode import ModeSolver
    shape = SHAPE[obj]
    size = tuple(0.1 * s for s in shape)
    eps = np.array(eps)
    if obj.startswith("fdfd"):
        g = FDFD(size, 0.1, wavelength=1.0, eps=eps)
    elif obj == "fdtd":
        g = FDTD(size, 0.1, eps=eps, use_jax=False)
    elif obj == "fdtdjax":
        g = FDTD(size, 0.1, eps=eps, use_jax=True, pml=(0.4, 0.4))
    else:
        g = ModeSolver(size, 0.1, wavelength=kw.get("wavelength", 0.5), eps=eps)
    if obj == "fdfd":
        g.port = port if port is not None else {"a0": P(0.3, 0.7, 180, 0.3), "b0": P(1.3, 0.7, 0, 0.3)}
    return g


def base_eps(obj):
    shape = SHAPE[obj]
    e = np.ones(shape) * 2.0
    mid = tuple(slice(None) if a == 0 and len(shape) > 1 and obj != "mode" else slice(shape[a] // 2 - 1, shape[a] // 2 + 2) for a in range(len(shape)))
    e[mid] = 12.0
    return e


def edit(g, op, obj, others):
    shape = SHAPE[obj]
    nd = len(shape)
    z = (0,) * (3 - nd)
    if op == "fill":
        g.fill(0.2, 5.0)
    elif op == "set_eps":
        g.set_eps(tuple(0.1 * (s // 2) for s in shape) + z, tuple(0.1 * max(1, s // 4) for s in shape) + z, 7.0)
    elif op == "assign":
        g.eps = np.where(np.arange(g.eps.size).reshape(shape) % 3 == 0, 11.0, g.eps)
    elif op == "inplace":
        g.eps[shape[0] // 2, shape[1] // 2] = 9.0
    elif op == "scale":
        g.eps *= 1.1
    elif op == "loss":  # only the imaginary part changes
        g.eps = g.eps + 0.3j * (g.eps.real > 3)
    elif op == "component":
        g.add(Pattern(), 10.0, 0.0, 0.0)
    elif op == "ports":
        from simphox.grid import Port as P
        g.port = dict(g.port)
        g.port["a0"] = P(0.4, 0.6, 180, 0.3)
    elif op == "other":
        o = others.setdefault(obj, build(obj, base_eps(obj) + 1))
        for r in READS[obj]:
            if r not in ("solve", "jaxfields", "library"):
                read(o, r, obj)


def read(g, op, obj):
    n = int(np.prod(SHAPE[obj]))
    if op == "eps_t":
        return [np.asarray(g.eps_t)]
    if op == "mats":
        if obj == "mode":
            return [g.waveguide_mode_matrix.toarray(), g.C.toarray()]
        return [g.mat.toarray()] if obj == "fdfd3" else [g.mat_ez.toarray(), g.mat_hz.toarray()]
    if op == "solve":
        if obj == "fdfd3":
            return [g.solve(np.exp(1j * np.arange(3 * n)))]
        s = np.exp(1j * np.arange(n))
        return [g.solve(s, tm_2d=True), g.solve(s, tm_2d=False)]
    if op == "source":
        return [g.port_source({("a0", 0): 1, ("b0", 0): 0.5}), g.port_source({"a0": 1}, profile_size_factor=2)]
    if op == "modes0":
        m = g.port_modes([("a0", 1), ("b0", 0)])
        k = min(2, len(m["a0"].io.betas))
        return [m["a0"].io.betas[:k], m["b0"].io.betas[:1], np.abs(m["a0"].profile(0)), np.array(m["a0"].center), np.array(m["a0"].size)]
    if op == "measure":
        f = np.exp(1j * np.arange(6 * n) * 0.7).reshape(2, 3, *g.shape3)
        return [np.asarray(g.get_measure_fn()(f)), np.asarray(g.get_measure_fn([("b0", 0)], wavelength=0.9)(f))]
    if op == "jaxfields":
        s = np.exp(1j * np.arange(n))
        return [np.asarray(g.get_fields_fn(s)(g.eps))]
    if op == "step":
        st = g.zero_state
        f = np.exp(1j * np.arange(3 * n)).reshape(g.field_shape)
        e, h = g.xp.array(f), g.xp.array(f[::-1])
        st = g.step((e, h) + tuple(st[2:]), [])
        st = g.step(st, [])
        return [np.asarray(st[0]), np.asarray(st[1])]
    if op == "modes":
        return [g.solve(2)[0]]
    if op == "wavelength":
        g.wavelength = {0.5: 0.6, 0.6: 0.5}[g.wavelength]
        return []
    if op == "library":
        from simphox.mode import ModeLibrary
        w = g.wavelength
        lib = getattr(g, "kept_library", None)
        if lib is None:
            lib = g.kept_library = ModeLibrary(g, 2)
        else:
            lib.update_wavelength(w)  # solves again, whatever was edited in between
        a = lib.betas.copy()
        lib.update_wavelength(0.55)
        b = lib.betas.copy()
        ModeLibrary.update_wavelength(lib, w)
        c = lib.betas.copy()
        return [a, b, c, np.abs(lib.e(0)) * (abs(c[0] - c[1]) > 0.01), lib.n(0) * lib.solver.k0]
    raise KeyError(op)


def run(case, ck):
    obj, first = case["obj"], tuple(case["first"])
    al = [e for e in EDITS if obj in ONLY.get(e, READS)] + list(READS[obj])
    others, fresh = {}, {}
    for extra in range(0, case["depth"] - len(first) + 1):
        for rest in itertools.product(al, repeat=extra):
            word = first + rest
            if len(word) == 3 and case["tier"] == "quick" and (word[-1] not in EDITS or (word[0] in EDITS) == (word[1] in EDITS)):
                continue  # everything is read at the end anyway; the longest words are read, edit, edit and edit, read, edit
            g = build(obj, base_eps(obj))
            for op in word:
                if op in EDITS:
                    edit(g, op, obj, others)
                else:
                    read(g, op, obj)
                ck.trans()
            ck.state(obj, word)
            key = (g.eps.tobytes(), tuple((k, p.xyz, p.a, p.w) for k, p in g.port.items()), getattr(g, "wavelength", None))
            if key not in fresh:
                f = build(obj, g.eps, port=dict(g.port), wavelength=getattr(g, "wavelength", 0.5))
                fresh[key] = {r: read(f, r, obj) for r in READS[obj] if r != "wavelength"}
            for r in READS[obj]:
                if r == "wavelength":
                    continue
                if r == "jaxfields" and hash_of(word) % 4:
                    continue
                got = read(g, r, obj)
                ck.trans()
                for i, (a, b) in enumerate(zip(got, fresh[key][r])):
                    ck.close(a, b, f"{obj}: {r} ({i}) after {word}", 1e-3 if (r, i) == ("library", 3) else 1e-5 if r in ("modes", "library") else TOL, key=f"{obj} {r}")
            ck.trace()
            ck.outcome(obj, key)
    ck.sample({"obj": obj, "first": first})


def hash_of(word):
    return sum(ord(c) for w in word for c in w)
