"""Ports: any way of naming them gives the same sources, measurements and s-parameters."""
import itertools
import numpy as np

TOL = 1e-7
ASSUMPTIONS = ["port labels are strings", "3D: two waveguides in four directions and strides of devices, sources and pairs (views and placements: G02, M02)", "ports with their sources inside the grid"]
D = 0.1
SHAPE = (24, 20)
NAMES = (("a0", "b0", "a1", "b1"), ("b1", "a1", "b0", "a0"), ("out", "in", "z", "A"), ("10", "2", "1", "port_with_long_name"))
# left, right, bottom, top
PLACES = ((0.6, 1.0, 180, 0.5), (1.8, 1.1, 0, 0.4), (1.1, 0.5, -90, 0.5), (1.3, 1.5, 90, 0.4))


def BOUNDS(tier):
    return (f"all excitation formats of <= 3 port/mode pairs; {len(NAMES)} namings x all measurement lists of <= {2 if tier == 'quick' else 3} pairs out of 8 x formats x profile sizes x wavelengths x polarizations x numpy/JAX; "
            "all sources of <= 2 weighted pairs x formats x directions; s-parameters of all ports and modes against transposed devices and straight waveguides in all directions; all fidelity targets of <= 2 ports")


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kind": "parse"}, {"kind": "fidelity"}]
    for n in range(len(NAMES)):
        out += [{"kind": "measure", "names": n, "first": f, "depth": 2 if q else 3} for f in range(8)]
        out += [{"kind": "source", "names": n, "first": f} for f in range(8)]
        out += [{"kind": "sparams", "names": n, "source": s} for s in range(8)]
    out += [{"kind": "angles", "names": n} for n in range(len(NAMES))]
    out += [{"kind": "transpose", "device": d, "spacing": sp} for d in range(4 if q else 12) for sp in ([D, D], [0.08, 0.11])]
    out += [{"kind": "guide", "orient": o, "wavelength": w, "along": a} for o in "xy" for w in (1.0, 1.55) for a in (0.05, 0.06)]
    out += [{"kind": "cube", "device": d, "spacing": sp} for d in range(2 if q else 6) for sp in ([D, D, D], [0.1, 0.12, 0.09])]
    out += [{"kind": "guide3", "orient": o, "wavelength": w} for o in "xy" for w in ((1.55,) if q else (1.55, 1.3))]
    out += [{"kind": "component", "orient": o, "wavelengths": w} for o in "xy" for w in ((1.5,), (1.55, 1.2), (0.9, 1.3, 1.1))[:2 if q else 3]]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def k_parse(case, ck):
    from simphox.parse import parse_excitation, parse_source_port
    names = ("a0", "b", "x1", "in")
    pairs = [(n, m) for n in names for m in (0, 1, 2)]
    for n in names:
        ck.check(parse_excitation(n) == [(n, 0)], f"{n!r} as excitation: {parse_excitation(n)}", key="str")
        ck.check(parse_source_port(n) == {(n, 0): 1}, f"{n!r} as source: {parse_source_port(n)}", key="source str")
    for p in pairs:
        for f in (tuple, list):
            ck.check(parse_excitation(f(p)) == [p], f"{f(p)!r} as excitation: {parse_excitation(f(p))}", key="pair")
            ck.check(parse_source_port(f(p)) == {p: 1}, f"{f(p)!r} as source: {parse_source_port(f(p))}", key="source pair")
    for d in (1, 2, 3):
        for word in itertools.product(pairs, repeat=d):
            ck.trans()
            for outer in (tuple, list):
                for inner in (tuple, list):
                    arg = outer(inner(p) for p in word)
                    got = parse_excitation(arg)
                    ck.check(got == list(word), f"{arg!r} as excitation: {got}", key="pairs")
                    got = parse_source_port(arg)
                    ck.check(got == {p: 1 for p in word}, f"{arg!r} as source: {got}", key="source pairs")
                plain = outer(p[0] if p[1] == 0 else p for p in word)  # a bare name is mode 0
                ck.check(parse_excitation(plain) == list(word), f"{plain!r} as excitation: {parse_excitation(plain)}", key="mixed")
                ck.check(parse_source_port(plain) == {p: 1 for p in word}, f"{plain!r} as source", key="source mixed")
            wts = {p: 0.5 - 1j * i for i, p in enumerate(word)}
            ck.check(parse_source_port(wts) == wts, f"{wts!r} as source: {parse_source_port(wts)}", key="source dict")
            bare = {(p[0] if p[1] == 0 else p): w for p, w in wts.items()}
            ck.check(parse_source_port(bare) == wts, f"{bare!r} as source: {parse_source_port(bare)}", key="source dict")
            ck.state(word)
            ck.trace()
    for d in (1, 2, 3):
        for ns in itertools.permutations(names, d):
            for ms in itertools.product(((0,), (1,), (0, 1), (2, 0), (0, 1, 2)), repeat=d):
                for f in (tuple, list):
                    arg = {n: f(m) for n, m in zip(ns, ms)}
                    ck.trans()
                    ck.check(parse_excitation(arg) == [(n, m) for n, mm in zip(ns, ms) for m in mm], f"{arg!r} as excitation: {parse_excitation(arg)}", key="dict")
                ck.state(ns, ms)


def device(names, pml=None, places=PLACES, shape=SHAPE, wl=0.8, seed=0, sp=(D, D)):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    eps = np.full(shape, 2.0)
    eps[:, 8:12] = 12.0
    eps[11:14, :] = 10.0
    rs = np.random.RandomState(seed)
    eps[9:16, 7:13] = np.where(rs.rand(7, 6) < 0.5, 12.0, 2.0)
    fx, fy = sp[0] / D, sp[1] / D
    g = FDFD(tuple(d * s for d, s in zip(sp, shape)), D if sp == (D, D) else sp, eps=eps, wavelength=wl, pml=pml if pml is None else (pml[0] * fx, pml[1] * fy))
    g.port = {n: Port(x * fx, y * fy, a, w * (fy if a % 180 == 0 else fx)) for n, (x, y, a, w) in zip(names, places)}
    return g


def pairs_of(names):
    return [(n, m) for n in names for m in (0, 1)]


class Sections:
    """Cross sections of a grid at its ports, straight from the documented placement."""

    def __init__(self, g):
        self.g, self.cache = g, {}

    def __call__(self, pair, factor, wl, n):
        p = self.g.port[pair[0]]
        key = (pair[0], factor, wl, n)
        if key not in self.cache:
            w = np.array((p.w, 0, 0) if p.a % 180 == 90 else (0, p.w, 0)) * factor
            self.cache[key] = self.g.modes(self.g.pml_safe_placement(p.xyz), tuple(w), wavelength=wl, num_modes=n)
        return self.cache[key]


def measured(g, pair, section, fields, tm):
    """[leaving, entering] amplitudes."""
    e, h = (np.asarray(g.view_fn(section.center, section.size, use_jax=False)(f)) for f in fields)
    both = np.asarray(section.io.measure_fn(pair[1], tm_2d=tm)(e, h))
    a = g.port[pair[0]].a % 360
    # The cross sections of ports along y are seen mirrored, so that their modes point to -y.
    forward_leaves = {0: True, 90: False, 180: False, 270: True}[a]
    return both if forward_leaves else both[::-1]


def top(word):
    return {n: max(m for q, m in word if q == n) + 1 for n, _ in word}


def k_measure(case, ck):
    names = NAMES[case["names"]]
    g = device(names)
    pairs = pairs_of(names)
    sec = Sections(g)
    n = int(np.prod(SHAPE))
    fields = [np.exp(1j * np.arange(6 * n) * w).reshape(2, 3, *SHAPE, 1) * (1 + (np.arange(6 * n) % 7).reshape(2, 3, *SHAPE, 1)) for w in (0.7, 1.9)]

    def check(arg, word, label, factor=3, wl=None, tm=True, use_jax=False, f=0):
        kw = {k: v for k, v in (("profile_size_factor", factor), ("wavelength", wl), ("tm_2d", tm)) if v != {"profile_size_factor": 3, "wavelength": None, "tm_2d": True}[k]}
        fn = g.get_measure_fn(arg, use_jax=use_jax, **kw) if arg is not None else g.get_measure_fn(use_jax=use_jax, **kw)
        got = np.asarray(fn(fields[f]))
        tops = top(word)
        want = np.array([measured(g, p, sec(p, factor, wl or g.wavelength, tops[p[0]]), fields[f], tm) for p in word]).T
        ck.trans()
        ck.close(got, want, f"{label}, factor {factor} wavelength {wl} tm={tm} jax={use_jax}", TOL, key="measure " + label.split()[0])

    first = pairs[case["first"]]
    for d in range(case["depth"]):
        for rest in itertools.product(pairs, repeat=d):
            word = (first,) + rest
            i = hash_of(word)
            check(list(word), word, f"list {list(word)}", use_jax=bool(i % 5 == 0), f=i % 2)
            if i % 3 == 0:
                check(list(word), word, f"list {list(word)}", factor=(2, 2.5)[i % 2], wl=(0.7, None)[i % 2], tm=bool(i % 4))
            if i % 3 == 1:
                check(tuple(word), word, f"tuple {word}")
            if len({n_ for n_, _ in word}) == len(word):
                check({n_: [m] for n_, m in word}, word, f"dict {word}")
            ck.state(case["names"], word)
            ck.trace()
    check(first if first[1] else first[0], (first,), f"single {first}")
    check({first[0]: [0, 1]}, ((first[0], 0), (first[0], 1)), f"dict {first[0]}")
    check({first[0]: [1, 0]}, ((first[0], 1), (first[0], 0)), f"dict {first[0]} reversed")
    check(None, tuple((n_, 0) for n_ in names), "default")
    for tm in (True, False):
        check(None, tuple((n_, 0) for n_ in names), "default", use_jax=True, tm=tm)


def hash_of(word):
    return sum((i + 1) * ord(c) for i, c in enumerate(str(word)))


def k_source(case, ck):
    names = NAMES[case["names"]]
    g = device(names, pml=(0.4, 0.4)) if case["names"] % 2 else device(names)
    g.pml_sep = 1
    pairs = pairs_of(names)
    sec = Sections(g)

    def sheet(pair, factor, wl, n, uni):
        s = sec(pair, factor, wl, n)
        p = g.port[pair[0]]
        axis = 1 if p.a % 180 == 90 else 0
        step = 1 if p.a % 360 < 180 else -1
        x, y, _ = s.center
        mode, beta = s.io.modes[pair[1]], s.io.betas[pair[1]]
        out = np.zeros(SHAPE, complex)
        w = int(np.floor(s.size[1 - axis] / D + 0.5))
        c = [int(np.floor(x / D + 0.5)), int(np.floor(y / D + 0.5))]
        lo = max(c[1 - axis] - w // 2, 0)
        for k, amp in ((2, 1.0), (3, -np.exp(-1j * D * beta))) if uni else ((2, 1.0),):
            for i, v in enumerate(mode):
                at = [0, 0]
                at[axis], at[1 - axis] = (c[axis] + k * step) % SHAPE[axis], lo + i
                out[tuple(at)] += v * amp
        return out

    def check(arg, weights, label, factor=3, wl=None, uni=True, **kw):
        tops = top(list(weights))
        want = sum(w * sheet(p, factor, wl or g.wavelength, tops[p[0]], uni) for p, w in weights.items())
        args = {k: v for k, v in (("profile_size_factor", factor), ("wavelength", wl), ("unidirectional", uni)) if v != {"profile_size_factor": 3, "wavelength": None, "unidirectional": True}[k]}
        got = np.asarray(g.port_source(arg, **args) if arg is not None else g.port_source(**args))
        ck.trans()
        ck.close(got, want, f"source {label} factor {factor} wavelength {wl} unidirectional={uni}", TOL, key=f"source {label.split()[0]}")

    first = pairs[case["first"]]
    for second in [None] + [p for p in pairs if p != first]:
        for w1, w2 in itertools.product((1, -0.5, 0.3j), (1, 2j)):
            weights = {first: w1} if second is None else {first: w1, second: w2}
            check(weights, weights, f"dict {weights}")
            check(weights, weights, f"options {weights}", factor=2, wl=0.7, uni=w2 == 1)
            if all(p[1] == 0 for p in weights):
                check({p[0]: w for p, w in weights.items()}, weights, f"names {weights}")
            mixed = {(p[0] if p[1] == 0 else p): w for p, w in weights.items()}
            check(mixed, weights, f"mixed {weights}")
            ck.state(case["names"], tuple(weights.items()))
        ck.trace()
    check(None, {(names[0], 0): 1}, "default")
    for d in (1, 2, 3, 4):
        check(tuple(0.5 - 1j * i for i in range(d)), {(names[i], 0): 0.5 - 1j * i for i in range(d)}, f"tuple of {d}")


def k_sparams(case, ck):
    names = NAMES[case["names"]]
    g = device(names, pml=(0.4, 0.4))
    g.pml_sep = 1
    pairs = pairs_of(names)
    src = pairs[case["source"]]
    sec = Sections(g)
    source = g.port_source({src: 1})
    fields = g.solve(source)
    ck.close(g.solve(source.ravel()), fields, "flat source", TOL, key="flat")
    others = [p for p in pairs if p != src]
    infos = [None] if src[1] == 0 else []
    infos += [list(pairs), list(pairs)[::-1], [src], [src, others[0]], [others[-1], src], [others[2], others[0], src, others[4]]]
    infos += [{src[0]: [src[1]]}, {others[3][0]: [0, 1], **({src[0]: [1, 0]} if others[3][0] != src[0] else {})}, {n: [1, 0] for n in names}]
    if src[1] == 0:
        infos += [list(names), tuple(names[::-1]), src[0]]
    from simphox.parse import parse_excitation
    for info in infos:
        word = parse_excitation(info) if info is not None else [(n, 0) for n in names]
        tops = top(word)
        row = np.array([measured(g, p, sec(p, 3, g.wavelength, tops[p[0]]), fields, True) for p in word]).T
        want = row[0] / row[1][word.index(src)]
        label = f"s-parameters {info} from {src}"
        ck.trans()
        ck.close(np.asarray(g.sparams(src[0], src[1], info) if info is not None else g.sparams(src[0], src[1])), want, label, 1e-6, key="sparams")
        if info is None or len(word) in (2, 8):
            kw = {} if info is None else {"measure_info": info}
            s, f = g.get_sim_sparams_fn(src[0], mode_idx=src[1], **kw)(g.eps)
            ck.close(np.asarray(s), want, f"{label} with JAX", 1e-6, key="sparams jax")
            ck.close(np.asarray(f), fields, f"fields of {label} with JAX", 1e-6, key="sparams fields")
        ck.state(case["names"], src, str(info))
        ck.trace()
    for factor, tm in ((2, True), (3, False), (2.5, False)):
        word = pairs[::-1] if tm else [src, others[1], others[4]]
        fs = g.solve(g.port_source({src: 1}, profile_size_factor=factor), tm_2d=tm)
        row = np.array([measured(g, p, sec(p, factor, g.wavelength, top(word)[p[0]]), fs, tm) for p in word]).T
        kw = {k: v for k, v in (("profile_size_factor", factor), ("tm_2d", tm)) if v != {"profile_size_factor": 3, "tm_2d": True}[k]}
        s, f = g.get_sim_sparams_fn(src[0], lambda r: 1 + r, src[1], measure_info=word, **kw)(g.eps - 1)
        ck.trans()
        label = f"s-parameters {word} from {src} with {kw} and a transform, with JAX"
        ck.close(np.asarray(s), row[0] / row[1][word.index(src)], label, 1e-6, key="sparams options")
        ck.close(np.asarray(f), fs, f"fields of {label}", 1e-6, key="sparams options fields")
        if not tm:
            word = [(n, 0) for n in names]
            row = np.array([measured(g, p, sec(p, 3, g.wavelength, 1), fs, tm) for p in word]).T
            m, f = g.get_sim_fn(g.port_source({src: 1}, profile_size_factor=factor), lambda r: 1 + r, tm_2d=False)(g.eps - 1)
            ck.close(np.asarray(m), row, f"simulation measurements from {src} of the other polarisation", 1e-6, key="sim_fn te")
            ck.close(np.asarray(f), fs, f"simulation fields from {src} of the other polarisation", 1e-6, key="sim_fn te fields")
    m, f = g.get_sim_fn(source)(g.eps)
    tops = top([(n, 0) for n in names])
    row = np.array([measured(g, (n, 0), sec((n, 0), 3, g.wavelength, 1), fields, True) for n in names]).T
    ck.close(np.asarray(m), row, f"simulation measurements from {src}", 1e-6, key="sim_fn")
    ck.close(np.asarray(f), fields, f"simulation fields from {src}", 1e-6, key="sim_fn fields")
    s, e, h = g.decorate(row[0], fields)
    for i, n in enumerate(names):
        ck.check(complex(s.loc[n]) == row[0][i], f"decorated s-parameter {n}", key="decorate")
    for q, (f_, off) in enumerate(((e, 0), (h, D / 2))):
        ck.close(f_.values, fields[q], "decorated fields", 1e-12, key="decorate fields")
        for a, ax in enumerate("xy"):
            ck.close(f_[ax].values, D * np.arange(SHAPE[a]) + off, f"coordinate {ax} of the decorated fields", 1e-9, key="decorate pos")
        ck.check(list(f_["direction"].values) == ["x", "y", "z"], "decorated directions", key="decorate directions")
    if case["source"] == 0:
        s, _ = g.get_sim_sparams_fn()(g.eps)
        ck.close(np.asarray(s), np.asarray(g.sparams(names[0])), "default source of the simulation", 1e-6, key="default source")
    ck.raises(lambda: g.sparams(src[0], src[1], [others[0]]), "source port not measured", key="source not measured")


def k_angles(case, ck):
    """A port's angle is meant modulo a whole turn."""
    from simphox.grid import Port
    names = NAMES[case["names"]]
    g = device(names, pml=(0.4, 0.4))
    g.pml_sep = 1
    pairs = pairs_of(names)
    ports = dict(g.port)
    rs = np.random.RandomState(3)
    shape = g.field_shape
    fields = rs.rand(*shape) + 1j * rs.rand(*shape), rs.rand(*shape) - 1j * rs.rand(*shape)
    want = [g.port_source({p: 1}) for p in pairs], np.asarray(g.get_measure_fn(pairs)(fields))
    for turns in itertools.product((-2, -1, 1), repeat=2):
        for n, p in ports.items():
            g.port = dict(ports)
            for q, t in zip((n, names[(names.index(n) + 1) % len(names)]), turns):
                g.port[q] = Port(ports[q].x, ports[q].y, ports[q].a + 360 * t, ports[q].w)
            label = f"angles {[g.port[q].a for q in names]}"
            ck.trans()
            for pr, w in zip(pairs, want[0]):
                ck.close(g.port_source({pr: 1}), w, f"{label}: source {pr}", TOL, key="angle source")
            ck.close(np.asarray(g.get_measure_fn(pairs)(fields)), want[1], f"{label}: measurement", TOL, key="angle measure")
            ck.state(n, turns)
    for a in range(-1080, 1081, 45):
        for w, h in ((0.5, 0), (0.3, 0.2)):
            for x, y, z in ((1, 2, 0), (0.5, -1, 0.25)):
                p = Port(x, y, a, w, z, h)
                ck.trans()
                if a % 90:
                    ck.raises(lambda: p.size, f"extent of a port of angle {a}", ValueError, key="port angle")
                else:
                    ck.close(np.asarray(p.size), (w, 0, h) if a % 180 else (0, w, h), f"extent of a port of angle {a}", 1e-12, key="port size")
                ck.check(p.xy == (x, y) and p.xya == (x, y, a) and p.xyz == (x, y, z) and np.allclose(p.center, (x, y, z)), f"position of port {p}", key="port position")
    ck.trace()


def k_transpose(case, ck):
    """Exchanging x and y changes no s-parameter beyond a sign."""
    names = NAMES[case["device"] % 4]
    sp = tuple(case["spacing"])
    g = device(names, pml=(0.4, 0.5), seed=case["device"], sp=sp)
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    t = FDFD(tuple(d * s for d, s in zip(sp[::-1], SHAPE[::-1])), sp[::-1], eps=g.eps.T.copy(), wavelength=0.8, pml=(5 * sp[1], 4 * sp[0]))
    t.pml_sep = g.pml_sep = 1
    t.port = {n: Port(p.y, p.x, {180: -90, 0: 90, -90: 180, 90: 0}[p.a], p.w) for n, p in g.port.items()}
    info = pairs_of(names)
    for src in info:
        a, b = np.asarray(g.sparams(src[0], src[1], info)), np.asarray(t.sparams(src[0], src[1], info))
        ck.trans(2)
        ck.close(np.abs(b), np.abs(a), f"device {case['device']} from {src}: exchanged axes, spacing {sp}", 1e-4, key="transpose")
        ck.state(case["device"], sp, src)
        ck.outcome(np.round(np.abs(a), 3).tobytes())
    ck.trace()


def alignment(f, section, mode, fields, tm=True, against=False):
    """How much of each component of the profile (reversed in time if against its direction) is in the fields at the section, relative to the best."""
    axis = section.prop_axis
    sl = section.slice(f)[1:]
    out = []
    for i in (0, 1):
        prof = np.asarray(section.profile(mode, use_h=bool(i), tm_2d=tm))
        for c in range(3):
            p, g = prof[c].ravel(), np.asarray(fields[i])[c][sl].ravel()
            sign = -1 if against and (c == axis) == bool(i) else 1
            w = np.vdot(p, p).real
            out.append((sign * np.vdot(p, g) / w, np.sqrt(w)) if w > 1e-12 else (None, 0))
    big = [max(w for _, w in out[:3]), max(w for _, w in out[3:])]
    ref = max((r for r, _ in out if r is not None), key=abs)
    return [(r / ref).real for k, (r, w) in enumerate(out) if r is not None and w > 0.12 * big[k // 3]]


def k_guide(case, ck):
    """A straight waveguide transmits each mode into the same mode of the other port."""
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    d, n = 0.05, (70, 44)
    x = case["orient"] == "x"
    eps = np.full(n, 2.0)
    eps[:, 17:27] = 12.0
    u = case["along"]  # spacing along the waveguide
    L, W = n[0] * u, n[1] * d / 2
    for names in (("a", "b"), ("b", "a")):
        size, spacing = (n[0] * u, n[1] * d), (u, d)
        f = FDFD(size if x else size[::-1], spacing if x else spacing[::-1], eps=eps if x else eps.T.copy(), wavelength=case["wavelength"], pml=(0.5, 0.5))
        f.port = {names[0]: Port(0, W, 180, 0.5) if x else Port(W, 0, -90, 0.5), names[1]: Port(L, W, 0, 0.5) if x else Port(W, L, 90, 0.5)}
        for src, m in itertools.product(names, (0, 1)):
            other = names[1 - names.index(src)]
            s = np.abs(np.asarray(f.sparams(src, m, [(src, m), (other, m)])))
            ck.trans()
            ck.check(0.85 < s[1] < 1.1 and s[0] < 0.4, f"straight waveguide along {case['orient']}, spacing {u} along it, wavelength {case['wavelength']}, mode {m} from {src}: |reflected|, |transmitted| = {s.round(3).tolist()}", key="waveguide")
            v = np.asarray(f.get_measure_fn([(src, m), (other, m)], tm_2d=False)(f.solve(f.port_source({(src, m): 1}), tm_2d=False)))
            s = np.abs(v[0] / v[1][0])
            section = f.port_modes([(other, m)])[other]
            for tm in (True, False):
                fields = f.solve(f.port_source({(src, m): 1}), tm_2d=tm)
                against = (src == names[1]) if x else (src == names[0])  # profiles point to +x, or -y
                r = alignment(f, section, m, fields, tm, against)
                ck.check(len(r) == 3 and min(r) > 0.3, f"straight waveguide along {case['orient']}, spacing {u} along it, wavelength {case['wavelength']}, mode {m} from {src}, tm {tm}: components of the fields relative to the profile of {other}: {np.round(r, 2).tolist()}", key="profile")
            ck.check(0.85 < s[1] < 1.1 and s[0] < 0.4, f"straight waveguide along {case['orient']}, other polarisation, spacing {u} along it, wavelength {case['wavelength']}, mode {m} from {src}: |reflected|, |transmitted| = {s.round(3).tolist()}", key="waveguide te")
            ck.state(case["orient"], case["wavelength"], u, names, src, m)
    ck.trace()

CUBE = (16, 15, 12)
# left, right, bottom, top: position, angle, width, height
CUBE_PORTS = ((0.2, 0.7, 180, 0.4, 0.6, 0.3), (1.5, 0.8, 0, 0.3, 0.5, 0.4), (0.8, 0.1, -90, 0.4, 0.6, 0.3), (0.7, 1.4, 90, 0.3, 0.6, 0.3))


def cube(device, sp, flip):
    """A 3D device of crossing waveguides with a random centre, or its mirror image with x and y exchanged."""
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    rs = np.random.RandomState(device)
    eps = np.full(CUBE, 2.0)
    eps[:, 5:10, 4:8] = 9.0
    eps[6:10, :, 4:8] = 11.0
    eps[5:11, 4:11, 3:9] = np.where(rs.rand(6, 7, 6) < 0.5, 12.0, 2.0)
    f = [s / D for s in sp]
    ports = {n: Port(x * f[0], y * f[1], a, w * (f[1] if a % 180 == 0 else f[0]), z * f[2], h * f[2]) for n, (x, y, a, w, z, h) in zip(NAMES[device % 4], CUBE_PORTS)}
    pml = [4 * sp[0], 5 * sp[1], 4 * sp[2]]
    shape, sp = list(CUBE), list(sp)
    if flip:
        eps = eps.transpose(1, 0, 2).copy()
        ports = {n: Port(p.y, p.x, {180: -90, 0: 90, -90: 180, 90: 0}[p.a], p.w, p.z, p.h) for n, p in ports.items()}
        for v in (pml, shape, sp):
            v[0], v[1] = v[1], v[0]
    g = FDFD(tuple(d * s for d, s in zip(sp, shape)), tuple(sp), eps=eps, wavelength=0.8, pml=tuple(pml))
    g.pml_sep = 1
    g.port = ports
    return g


def k_cube(case, ck):
    """3D ports: sources are the sheets of the transverse fields, s-parameters their measured fields; exchanging x and y changes nothing."""
    sp = tuple(case["spacing"])
    factor = 2
    sizes = []
    for flip in (False, True):
        g = cube(case["device"], sp, flip)
        step = np.array(g.spacing)
        names = list(g.port)
        pairs = pairs_of(names)

        def section(pair, n, wl=None):
            p = g.port[pair[0]]
            size = np.array((p.w, 0, p.h) if p.a % 180 == 90 else (0, p.w, p.h)) * factor
            return g.modes(g.pml_safe_placement(p.xyz), tuple(size), wavelength=wl or g.wavelength, num_modes=n)

        def sheet(pair, n, uni, wl=None):
            s = section(pair, n, wl)
            axis = 1 if g.port[pair[0]].a % 180 == 90 else 0
            sign = 1 if g.port[pair[0]].a % 360 < 180 else -1
            t = [1 - axis, 2, axis]  # the axes of the grid along those of the cross section
            e, beta = np.asarray(s.io.e(pair[1])), s.io.betas[pair[1]]
            c = np.floor(np.array(s.center) / step + 0.5).astype(int)
            w = np.floor(np.array(s.size) / step + 0.5).astype(int)
            lo = np.maximum(c - w // 2, 0)
            out = np.zeros((3,) + tuple(g.shape), complex)
            for k, amp in ((2, 1.0), (3, -np.exp(-1j * step[axis] * beta))) if uni else ((2, 1.0),):
                at = [None] * 3
                at[axis] = (c[axis] + k * sign) % g.shape[axis]
                for i in range(e.shape[1]):
                    for j in range(e.shape[2]):
                        at[t[0]], at[t[1]] = lo[t[0]] + i, lo[t[1]] + j
                        for q in (0, 1):  # the components along the cross section
                            out[(t[q],) + tuple(at)] += e[q, i, j, 0] * amp
            return out

        for k, src in enumerate(pairs):
            other = pairs[(3 * k + 5) % 8]
            for weights in ({src: 1}, {src: -0.5, other: 2j}):
                if len(weights) == 1 or other != src:
                    for uni in (True, False):
                        want = sum(w * sheet(p, top(list(weights))[p[0]], uni) for p, w in weights.items())
                        ck.trans()
                        ck.close(np.asarray(g.port_source(weights, profile_size_factor=factor, unidirectional=uni)), want, f"3D source {weights}, unidirectional={uni}, flipped={flip}, spacing {sp}", TOL, key="source 3d")
            wl = 0.95  # another wavelength than that of the simulation
            ck.close(np.asarray(g.port_source({src: 1}, profile_size_factor=factor, wavelength=wl)), sheet(src, src[1] + 1, True, wl), f"3D source {src} at {wl}, flipped={flip}, spacing {sp}", TOL, key="source 3d wavelength")
            fields = g.solve(g.port_source({src: 1}, profile_size_factor=factor))
            ck.close(np.asarray(g.get_measure_fn(pairs, profile_size_factor=factor, wavelength=wl, use_jax=False)(fields)), np.array([measured(g, p, section(p, 2, wl), fields, True) for p in pairs]).T, f"3D measurement from {src} at {wl}, flipped={flip}", 1e-6, key="measure 3d wavelength")
            row = np.array([measured(g, p, section(p, 2), fields, True) for p in pairs]).T
            for use_jax in (False, True):
                got = np.asarray(g.get_measure_fn(pairs, profile_size_factor=factor, use_jax=use_jax)(fields))
                ck.close(got, row, f"3D measurement from {src}, flipped={flip}, jax={use_jax}", 1e-6, key="measure 3d")
            s = row[0] / row[1][k]
            sizes.append(np.abs(s))
            if k % 3 == 0:
                fs = g.solve(g.port_source({src: 1}))
                word = [src, other] if src != other else [src]
                d3 = np.asarray(g.get_measure_fn(word)(fs))
                ck.close(np.asarray(g.sparams(src[0], src[1], word)), d3[0] / d3[1][0], f"3D s-parameters {word} from {src}, flipped={flip}", 1e-6, key="sparams 3d")
            ck.state(case["device"], sp, src, flip)
            ck.outcome(np.round(np.abs(s), 3).tobytes())
        s, e, h = g.decorate(row[0][::2], fields)
        for q, (f_, off) in enumerate(((e, 0), (h, 0.5))):
            ck.close(f_.values, fields[q], "decorated 3D fields", 1e-12, key="decorate fields 3d")
            for a, ax in enumerate("xyz"):
                ck.close(f_[ax].values, step[a] * (np.arange(g.shape[a]) + off), f"coordinate {ax} of the decorated 3D fields", 1e-9, key="decorate pos 3d")
    for k in range(8):
        ck.close(sizes[8 + k], sizes[k], f"3D device {case['device']} from {pairs[k]}: exchanged axes, spacing {sp}", 1e-4, key="transpose 3d")
    ck.trace()


def k_guide3(case, ck):
    """A straight waveguide in 3D transmits each mode, of either polarisation, into the same mode of the other port, and into no other."""
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    d, n = 0.08, (30, 16, 14)
    x = case["orient"] == "x"
    eps = np.full(n, 2.1)
    eps[:, 5:11, 5:9] = 12.0
    L, W, Z = n[0] * d, n[1] * d / 2, n[2] * d / 2
    f = FDFD(tuple(d * s for s in (n if x else (n[1], n[0], n[2]))), d, eps=eps if x else eps.transpose(1, 0, 2).copy(), wavelength=case["wavelength"], pml=(0.4, 0.4, 0.32))
    f.pml_sep = 4
    p = (Port(0, W, 180, 0.5, Z, 0.36), Port(L, W, 0, 0.5, Z, 0.36)) if x else (Port(W, 0, -90, 0.5, Z, 0.36), Port(W, L, 90, 0.5, Z, 0.36))
    f.port = {"in": p[0], "a": p[1]}
    word = pairs_of(("a", "in"))
    for src in word:
        s = np.abs(np.asarray(f.sparams(src[0], src[1], word)))
        other = ("in" if src[0] == "a" else "a", src[1])
        ck.trans()
        i = word.index(other)
        rest = np.delete(s, i)
        ck.check(0.85 < s[i] < 1.15 and rest.max() < 0.4, f"straight 3D waveguide along {case['orient']}, wavelength {case['wavelength']}, from {src}: amplitudes {s.round(3).tolist()} in {word}", key="waveguide 3d")
        r = alignment(f, f.port_modes(word)[other[0]], other[1], f.solve(f.port_source({src: 1})), True, (src[0] == "a") if x else (src[0] == "in"))
        ck.check(case["wavelength"] < 1.5 or len(r) > 3 and min(r) > 0 and np.mean(r) > 0.3, f"straight 3D waveguide along {case['orient']}, wavelength {case['wavelength']}, from {src}: components of the fields relative to the profile of {other}: {np.round(r, 2).tolist()}", key="profile 3d")
        ck.state(case["orient"], case["wavelength"], src)
        ck.outcome(s.round(2).tobytes())
    ck.trace()



def k_fidelity(case, ck):
    names = NAMES[0]
    g = device(names)
    pairs = pairs_of(names)
    vals = (1, -2, 1j, 0.5 + 0.5j)
    for info in (None, pairs, pairs[::-1]):
        word = [(n, 0) for n in names] if info is None else info
        for d in (1, 2):
            for ports in itertools.permutations(word, d):
                for wts in itertools.product(vals, repeat=d):
                    for bare in (True, False):
                        desired = {(p[0] if bare and p[1] == 0 else p): w for p, w in zip(ports, wts)}
                        v = np.zeros(len(word), complex)
                        for p, w in zip(ports, wts):
                            v[word.index(p)] = w
                        v /= np.linalg.norm(v)
                        label = f"fidelity of {desired} among {word}"
                        for iw in (0, 0.25):
                            kw = {} if info is None else {"measure_info": info}
                            if iw:
                                kw["insertion_weight"] = iw
                            fn = g.fidelity(desired, **kw)
                            for s in (v, 0.5j * v, np.exp(1j * np.arange(len(word))) * 0.3, np.roll(v, 1) * 0.7):
                                cost, (s2, f2) = fn((s, np.ones(2)))
                                nn = np.linalg.norm(s)
                                ov = abs(np.vdot(v, s)) ** 2
                                want = -ov if not iw else -(ov / nn ** 2) * (1 - iw) - nn ** 2 * iw
                                ck.trans()
                                ck.check(abs(float(cost) - want) < 1e-6, f"{label} weight {iw} of {s}: {float(cost)} instead of {want}", key="fidelity")
                                ck.check(np.array_equal(np.asarray(s2), s), f"{label}: s-parameters are handed on", key="fidelity aux")
                    ck.state(str(desired), str(info))
        ck.trace()


def k_component(case, ck):
    """A component model from FDFD gives, for each wavelength and requested port, what a simulation at that wavelength gives."""
    import simphox.fdfd as fd
    from simphox.circuit import Component
    fd.DPHOX_INSTALLED = True  # no dphox here: a stand-in pattern with the attributes the code reads

    class Port:
        def __init__(self, x, y, a, w):
            self.xya, self.w = (x, y, a), w

    flip = case["orient"] == "y"
    order = (lambda t: tuple(t)[::-1]) if flip else tuple

    class Pattern:
        size, bounds = order((2.0, 0.5)), order((0.6, 1.2)) + order((2.6, 1.7))
        port = {"in": Port(*order((0.8, 1.45)), -90 if flip else 180, 0.5), "a": Port(*order((2.4, 1.45)), 90 if flip else 0, 0.5),
                "b": Port(*order((2.0, 1.45)), 90 if flip else 0, 0.6)}

        def mask(self, shape, spacing):
            m = np.zeros(order(shape))
            m[:, 12:17] = 1
            m[14:17, 10:15] = 1
            return m.T if flip else m

    wls, pml, bnd = case["wavelengths"], 0.5, order((0.6, 1.2))
    p, names = Pattern(), list(Pattern.port)
    args = dict(core_eps=9.0, clad_eps=2.0, spacing=D, boundary=bnd, pml=pml)
    full = []
    for wl in wls:
        g = fd.FDFD.from_pattern(component=p, wavelength=wl, name="direct", **args)
        full.append([np.asarray(g.sparams(n, 0, [(m, 0) for m in names])) for n in names])
        ck.check(abs(g.wavelength - wl) < 1e-12, "wavelength of the simulation", key="wavelength")
    full = np.array(full)
    lists = [None] + [list(q) for k in (1, 2, 3) for q in itertools.permutations(names, k)]
    picks = [(i, o) for i in lists for o in lists if i is None or o is None or i == lists[-1] or len(i) + len(o) <= (2 if flip else 3)]
    for i, o in picks:
        kw = {}
        if i is not None:
            kw["in_ports"] = i
        if o is not None:
            kw["out_ports"] = o
        c = Component.from_fdfd(p, wavelengths=list(wls), name="c", **args, **kw)
        ii, oo = i or names, o or names
        label = f"component model with in_ports={i}, out_ports={o}, wavelengths {wls}"
        ck.trans()
        ck.check(c.name == "c" and c.structure is p, f"{label}: name and structure", key="component")
        ck.check(tuple(c.model.dims) == ("wavelengths", "in_ports", "out_ports") and c.model.shape == (len(wls), len(ii), len(oo)), f"{label}: dimensions {c.model.dims} {c.model.shape}", key="component shape")
        for a, wl in enumerate(wls):
            for n in ii:
                for m in oo:
                    got = complex(c.model.sel(wavelengths=wl, in_ports=n, out_ports=m).values)
                    want = full[a, names.index(n), names.index(m)]
                    ck.check(abs(got - want) < 1e-6, f"{label}: from {n} to {m} at {wl}: {got} instead of {want}", key="component")
        ck.state(str(i), str(o), wls, flip)
        ck.trace()
    # every option of the simulation reaches it
    seen = []

    def bar(it):
        seen.append(list(it))
        return iter(seen[-1])
    for kw in ({"bg_eps": 1.7, "sub_z": 1.1}, {"bg_eps": 1.7, "sub_z": 0.6, "rib_t": 0.4}, {"profile_size_factor": 2}, {"pbar": bar}, {"pml": 0.4, "clad_eps": 1.5}):
        a = {**args, **{k: v for k, v in kw.items() if k not in ("profile_size_factor", "pbar")}}
        opts = {k: v for k, v in kw.items() if k == "profile_size_factor"}
        c = Component.from_fdfd(p, wavelengths=list(wls), name="c", **{**args, **kw})
        label = f"component model with options {sorted(kw)}, wavelengths {wls}"
        ck.state(str(sorted(kw)), wls, flip)
        for k, wl in enumerate(wls):
            for n in names:
                g = fd.FDFD.from_pattern(component=p, wavelength=wl, name="direct", **a)
                want = np.asarray(g.get_sim_sparams_fn(n, **opts)(g.eps)[0])
                ck.trans()
                ck.close([complex(c.model.sel(wavelengths=wl, in_ports=n, out_ports=m).values) for m in names], want, f"{label}: from {n} at {wl}", 1e-6, key="component options")
    ck.check(seen == [list(wls)], f"progress bar was given {seen}", key="component bar")
