"""In situ backpropagation gradients equal the derivative of the circuit."""
import itertools
import numpy as np
from mc import refc, circ

TOL = 2e-5
ASSUMPTIONS = ["lossless circuits without measurement noise, top and bottom phase styles (the only ones with a layered optical model)",
               "reference: central differences of the product of 2x2 matrices in double precision; the rectangular power fractions are defined for phase shifters in the top arms (what rectangular() builds)"]


def BOUNDS(tier):
    return (f"all circuits of <= {2 if tier == 'quick' else 3} nodes on 3 rails with every numbering, nodes side by side on 4 and 6 rails in several numberings and listings, and {'16' if tier == 'quick' else '18'} "
            f"named architectures x top/bottom x ideal/unequal couplers x both measurement protocols x input vectors/blocks x 2 losses x 2 phase points; powers at the phase shifters also with losses")


def cases(tier, seed):
    fams = [("tree", 3), ("tree", 4), ("tree", 5), ("chain", 4), ("butterfly", 4), ("rectangular", 2), ("rectangular", 3),
            ("rectangular", 4), ("triangular", 3), ("triangular", 4), ("tree_cascade", 3), ("tree_embedded", 4)]
    out = [{"kind": "family", "family": f, "n": n, "style": s} for f, n in fams for s in circ.EXPLICIT]
    if tier == "quick":
        out += [{"kind": "family", "family": f, "n": n, "style": s} for f, n, s in (("tree", 8, "bottom"), ("rectangular", 6, "top"), ("butterfly", 8, "top"), ("tree_cascade", 5, "bottom"))]
    else:
        out += [{"kind": "family", "family": f, "n": n, "style": s} for f, n in
                [("rectangular", 5), ("tree", 7), ("tree", 8), ("butterfly", 8), ("tree_cascade", 4), ("rectangular", 6)] for s in circ.EXPLICIT]
    k = 2 if tier == "quick" else 3
    ws = list(circ.words(3, k))
    for s in circ.EXPLICIT:
        for i in range(0, len(ws), 3):
            out.append({"kind": "words", "style": s, "lo": i, "hi": i + 3, "k": k})
    out += [{"kind": "parallel", "style": s, "part": i} for s in circ.EXPLICIT for i in range(4)]
    out += [{"kind": "layer"}]
    out += [{"kind": "powers", "style": s} for s in circ.EXPLICIT]
    return out


def numeric(m, e, l, x, coef, which):
    th, ph, ga = m.params
    style = str(m.phase_style.value)
    sp = refc.spec(m)
    k, n = len(th), m.n

    def f(p, x):
        u = refc.circuit(n, sp, p[:k], p[k:2 * k], p[2 * k:], style, e, l)
        return cost_np(u @ x, coef, which)
    p0 = np.hstack([th, ph, ga])
    h = 1e-5
    g = np.array([(f(p0 + h * d, x) - f(p0 - h * d, x)) / (2 * h) for d in np.eye(p0.size)])
    gx = np.zeros(x.shape, complex)
    for idx in np.ndindex(*x.shape):
        d = np.zeros(x.shape, complex)
        d[idx] = h
        gx[idx] = (f(p0, x + d) - f(p0, x - d)) / (2 * h) - 1j * (f(p0, x + 1j * d) - f(p0, x - 1j * d)) / (2 * h)
    return g[:k], g[k:2 * k], g[2 * k:], gx


def cost_np(o, coef, which):
    o = o.reshape(o.shape[0], -1)
    if which == "power":
        return float(np.sum(np.abs(o[0]) ** 4) + 0.5 * np.sum(np.abs(o[-1]) ** 2))
    return float(np.real(np.sum(coef.reshape(o.shape).conj() * o)))


def cost_jnp(o, coef, which):
    import jax.numpy as jnp
    o = o.reshape(o.shape[0], -1)
    if which == "power":
        return jnp.sum(jnp.abs(o[0]) ** 4) + 0.5 * jnp.sum(jnp.abs(o[-1]) ** 2)
    return jnp.real(jnp.sum(coef.reshape(o.shape).conj() * o))


def powers(ck, m, label, rectangular=False):
    """The powers in front of every phase shifter, from the fields of the layered optical model."""
    from checks.C03 import layers
    n, k = m.n, len(m.params[0])
    e, l = circ.err_arrays(m)
    style = str(m.phase_style.value)
    sp = refc.spec(m)
    for x in (np.exp(0.7j * np.arange(n)) * (1 + np.arange(n)), np.eye(n)[n - 1], np.exp(0.3j * np.arange(2 * n)).reshape(n, 2)):
        u = x.astype(complex).reshape(n, -1)
        fields = [u]
        for s in layers(m, style, e, l):
            u = s @ u
            fields.append(u)
        p = np.sum(np.abs(np.array(fields)) ** 2, axis=-1)
        theta, phi = np.zeros(k), np.zeros(k)
        for t, b, c, i in sp:
            arm = t if style == "top" else b
            theta[i], phi[i] = p[4 * c + 2, arm], p[4 * c, arm]
        prop = np.asarray(m.propagate(x))
        for use_jax in (False, True):
            got = m.phase_shift_localize(np.abs(prop) ** 2, use_jax=use_jax)
            ck.trans()
            for nm, a, b in zip(("theta", "phi", "gamma"), got, (theta, phi, p[-1])):
                ck.close(np.asarray(a), b, f"power at the {nm} phase shifters of {label}", TOL, key=f"powers {nm} jax={use_jax}")
        if rectangular and x.ndim == 1:
            from simphox.circuit.rectangular import rectangular_phase_shift_powers
            for use_jax in (False, True):
                got = rectangular_phase_shift_powers(prop, use_jax)
                ck.trans()
                total = p.sum(axis=1)
                for i, q in ((0, [theta[i] / total[4 * c + 2] for _, _, c, i in sorted(sp, key=lambda w: w[3])]),
                             (1, [phi[i] / total[4 * c] for _, _, c, i in sorted(sp, key=lambda w: w[3])]), (2, p[-1] / total[-1])):
                    ck.close(np.asarray(got[i]), np.array(q), f"fraction of power at the phase shifters of {label}", TOL, key=f"fractions {i} jax={use_jax}")


def judge(ck, m, err, label, whiches=("power", "overlap"), shapes=("vector", "block")):
    import jax
    import jax.numpy as jnp
    n = m.n
    params = tuple(jnp.array(p) for p in m.params)
    e, l = circ.err_arrays(m)
    powers(ck, m, label, label.startswith("rectangular") and str(m.phase_style.value) == "top")
    if err != "ideal":
        e = e[::-1] * 0.7 + 0.02  # other errors than those of the circuit's own nodes
    for analog in (True, False):
        fn = m.in_situ_matrix_fn(all_analog=analog)
        for shape in shapes:
            x = np.exp(1j * np.arange(n)) * (1 + np.arange(n)) / n if shape == "vector" else \
                (refc.generic(5 + ck.seed, n, 3) + 1j * refc.generic(6, n, 3))
            coef = refc.generic(8, *x.shape) - 0.4j
            for which in whiches:
                if len(whiches) == 2 and ck.tier == "quick" and (which == "power") != (shape == "block"):
                    continue
                val, (gp, gx) = jax.value_and_grad(lambda p, x: cost_jnp(fn(p, x, jnp.array(e), jnp.array(l)), jnp.array(coef), which),
                                                   argnums=(0, 1))(params, jnp.array(x))
                want = numeric(m, e, l, x, coef, which)
                ck.trans(2)
                ck.close(val, cost_np(refc.circuit(n, refc.spec(m), *m.params, str(m.phase_style.value), e, l) @ x, coef, which), f"value of {label} {shape} {which}", TOL, key="value")
                for nm, a, b in zip(("theta", "phi", "gamma"), gp, want):
                    ck.close(a, b, f"in situ {nm} gradient of {label} analog={analog} {shape} {which}", TOL, key=f"{nm} {shape}")
                ck.close(np.asarray(gx), want[3], f"in situ input gradient of {label} analog={analog} {shape} {which}", TOL, key=f"input {shape}")
                ck.trace()
                ck.outcome(np.round(want[0], 4).tobytes())


def run(case, ck):
    if case["kind"] == "family":
        for err in ("ideal", "unequal"):
            m = circ.family(case["family"], case["n"], case["style"], err, seed=ck.seed)
            ck.state(case["family"], case["n"], case["style"], err)
            judge(ck, m, err, f"{case['family']}({case['n']}) {case['style']} {err}")
        th, ph, ga = m.params
        m.params = (np.pi * (np.arange(len(th)) % 3) / 2, ph, ga)  # special splitting states
        ck.state(case["family"], case["n"], case["style"], "special")
        judge(ck, m, err, f"{case['family']}({case['n']}) {case['style']} special states", ("overlap",), ("vector",))
        ck.sample({k: case[k] for k in ("family", "n", "style")})
    elif case["kind"] == "words":
        for word in list(circ.words(3, case["k"]))[case["lo"]:case["hi"]]:
            k = len(word)
            perms = list(itertools.permutations(range(k)))
            for ids in (perms if k <= 2 else perms[1::2]):
                m = circ.custom(word, 3, case["style"], ids, None, "unequal")
                m.params = circ.generic_params(m, ck.seed)
                ck.state(word, ids, case["style"])
                judge(ck, m, "unequal", f"nodes {word} ids {ids} {case['style']}", ("overlap",), ("block",))
    elif case["kind"] == "parallel":
        for n, word, ids, listing in circ.parallel(131 if ck.tier == "quick" else 17)[case["part"]::4]:
            m = circ.custom(word, n, case["style"], ids, None, "unequal", listing)
            m.params = circ.generic_params(m, ck.seed)
            ck.state(word, ids, listing, case["style"])
            judge(ck, m, "unequal", f"nodes {word} ids {ids} listing {listing} {case['style']}", ("overlap",), ("block",))
    elif case["kind"] == "powers":
        for f, n in (("rectangular", 2), ("rectangular", 3), ("rectangular", 4), ("rectangular", 5), ("rectangular", 6), ("triangular", 4), ("tree", 5), ("butterfly", 4), ("chain", 4)):
            for err in ("ideal", "both"):
                m = circ.family(f, n, case["style"], err, seed=ck.seed)
                ck.state(f, n, err)
                ck.trace()
                powers(ck, m, f"{f}({n}) {case['style']} {err}", f == "rectangular" and case["style"] == "top")
                ck.outcome(f, n, err)
        for n, word, ids, listing in circ.parallel(17):
            m = circ.custom(word, n, case["style"], ids, None, "both", listing)
            m.params = circ.generic_params(m, ck.seed)
            ck.state(word, ids, listing)
            ck.trace()
            powers(ck, m, f"nodes {word} ids {ids} listing {listing} {case['style']}")
    else:
        layer(ck)


def layer(ck):
    """The trainable layer applies the circuit to a batch of rows; a vanishing error has a zero gradient."""
    import jax
    import jax.numpy as jnp
    import haiku as hk
    from simphox.circuit.forward import InSituBackpropLayer
    for f, n in (("rectangular", 4), ("tree", 3)):
        m = circ.family(f, n, "top", "ideal", seed=3)
        u = np.diag(np.exp(-1j * m.gammas)) @ refc.mesh_ref(m)
        for analog in (True, False):
            net = hk.without_apply_rng(hk.transform(lambda x: InSituBackpropLayer(m, all_analog=analog)(x)))
            x = refc.generic(3, 5, n) + 1j * refc.generic(4, 5, n)
            p = net.init(jax.random.PRNGKey(0), jnp.array(x))
            ck.state("layer", f, n, analog)
            ck.trans(2)
            ck.close(net.apply(p, jnp.array(x)), x @ u.T, f"layer output of {f}", 3e-5, key="layer")
            t = jnp.array(x[::-1])
            g = jax.grad(lambda p: jnp.sum(jnp.abs(net.apply(p, jnp.array(x)) - t) ** 2))(p)
            m0 = circ.family(f, n, "top", "ideal", seed=3)

            def c(th, ph, ga):
                o = x @ refc.circuit(n, refc.spec(m0), th, ph, ga).T
                return np.sum(np.abs(o - x[::-1]) ** 2)
            ths = [m0.thetas, m0.phis, np.zeros(n)]
            flat = {k: v for d in g.values() for k, v in d.items()}
            for i, nm in enumerate(("theta", "phi", "gamma")):
                num = []
                for d in np.eye(len(ths[i])) * 1e-5:
                    a, b = list(ths), list(ths)
                    a[i], b[i] = ths[i] + d, ths[i] - d
                    num.append((c(*a) - c(*b)) / 2e-5)
                ck.close(flat[nm], np.array(num), f"layer {nm} gradient of {f} analog={analog}", 1e-4, key="layer gradient")
            ck.trace()
            zero = jax.grad(lambda q: 0.0 * jnp.sum(jnp.abs(net.apply(q, jnp.array(x)))))(p)
            ck.check(all(np.all(np.abs(np.asarray(v)) < 1e-6) for d in zero.values() for v in d.values()),
                     f"{zero} gradient of a constant loss is not zero", key="zero gradient")
    layer_options(ck)


class Still:
    """Stand-in for the normal generators: every draw is one value."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.keep = np.random.randn, np.random.standard_normal, np.random.normal
        v = self.value
        np.random.randn = lambda *s: np.full(s, float(v)) if s else float(v)
        np.random.standard_normal = lambda size=None: np.full(size, float(v)) if size is not None else float(v)
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * (np.full(size, float(v)) if size is not None else float(v))

    def __exit__(self, *a):
        np.random.randn, np.random.standard_normal, np.random.normal = self.keep


def layer_options(ck):
    """Options of the layer and of its measurement noise; two layers in a row."""
    import jax
    import jax.numpy as jnp
    import haiku as hk
    from simphox.circuit.forward import InSituBackpropLayer

    def build(f, n, seed, **kw):
        return InSituBackpropLayer(circ.family(f, n, "top", "ideal", seed=seed), **kw)
    for f, n in (("rectangular", 3), ("triangular", 4)):
        m = circ.family(f, n, "top", "ideal", seed=3)
        full = refc.mesh_ref(m)
        bare = np.diag(np.exp(-1j * m.gammas)) @ full
        x = refc.generic(3, 5, n) + 1j * refc.generic(4, 5, n)
        for zero, jit, analog, act in itertools.product((True, False), (True, False), (True, False), (None, "abs2")):
            a = None if act is None else (lambda y: jnp.abs(y) ** 2)
            net = hk.without_apply_rng(hk.transform(lambda x: build(f, n, 3, set_gammas_zero=zero, use_jit=jit, all_analog=analog, activation=a)(x)))
            p = net.init(jax.random.PRNGKey(0), jnp.array(x))
            want = x @ (bare if zero else full).T
            ck.state("option", f, n, zero, jit, analog, act)
            ck.trans()
            ck.close(net.apply(p, jnp.array(x)), want if act is None else np.abs(want) ** 2,
                     f"output of a layer of {f}, set_gammas_zero={zero} use_jit={jit} all_analog={analog} activation={act}", 5e-5, key="layer options")
        own = hk.without_apply_rng(hk.transform(lambda x: build(f, n, 3, in_situ_matrix=lambda q: jnp.array(full) * (1 + 0 * q[0][0]))(x)))
        ck.close(own.apply(own.init(jax.random.PRNGKey(0), jnp.array(x)), jnp.array(x)), x @ full.T, f"output of a layer of {f} with its own matrix function", 5e-5, key="layer own matrix")
        # noise: outputs scale with the amplitude error and rotate by the phase error of the draw; without draws nothing changes
        for draw, amp, ph in itertools.product((-1.0, 0.0, 1.0), (0.0, 0.1), (0.0, 0.05)):
            with Still(draw):
                net = hk.without_apply_rng(hk.transform(lambda x: build(f, n, 3, io_amp_error_std=amp, io_phase_error_std=ph, tap_pd_shot_noise=0.2,
                                                                        use_jit=False)(x)))
                p = net.init(jax.random.PRNGKey(0), jnp.array(x))
                got = net.apply(p, jnp.array(x))
            ck.state("noise", f, n, draw, amp, ph)
            ck.trans()
            ck.close(got, x @ bare.T * (1 + amp * draw) * np.exp(1j * np.pi * ph * draw), f"output of a layer of {f} with amplitude error {amp} and phase error {ph} at draw {draw}",
                     5e-5, key="layer noise")
        # losses drawn for the nodes
        for draw in (-1.0, -0.5, 0.0):
            with Still(draw):
                net = hk.without_apply_rng(hk.transform(lambda x: build(f, n, 3, loss_db_std=0.5)(x)))
                p = net.init(jax.random.PRNGKey(0), jnp.array(x))
                got = net.apply(p, jnp.array(x))
            k = len(m.nodes)
            lossy = refc.circuit(n, refc.spec(m), m.thetas, m.phis, np.zeros(n), "top", None, np.full((k, 2), 0.5 * draw))
            ck.trans()
            ck.close(got, x @ lossy.T, f"output of a layer of {f} with losses 0.5 dB * {draw}", 5e-5, key="layer loss")
        # gradients: noise without draws does not disturb them, vanishing noise hardly
        t = jnp.array(x[::-1])
        for analog in (True, False):
            gs = []
            for draw, std in ((0.0, 0.0), (0.0, 0.3), (1.0, 1e-5), (-1.0, 1e-5)):
                with Still(draw):
                    net = hk.without_apply_rng(hk.transform(lambda x: build(f, n, 3, io_amp_error_std=std, io_phase_error_std=std, tap_pd_shot_noise=std,
                                                                            all_analog=analog, use_jit=False)(x)))
                    p = net.init(jax.random.PRNGKey(0), jnp.array(x))
                    g = jax.grad(lambda p: jnp.sum(jnp.abs(net.apply(p, jnp.array(x)) - t) ** 2))(p)
                gs.append(np.concatenate([np.asarray(q).ravel() for q in jax.tree_util.tree_leaves(g)]))
                ck.trans()
            ck.close(gs[1], gs[0], f"gradient of a layer of {f} with noise but zero draws, all_analog={analog}", 1e-5, key="noise gradient zero draw")
            for q in gs[2:]:
                ck.close(q, gs[0], f"gradient of a layer of {f} with vanishing noise, all_analog={analog}", 5e-3, key="noise gradient continuity")
        # two layers with an activation in between
        m2 = circ.family("rectangular", n, "top", "ideal", seed=9)
        for analog in (True, False):
            def two(x):
                h = build(f, n, 3, name="one", all_analog=analog, activation=lambda y: y * jnp.abs(y))(x)
                return build("rectangular", n, 9, name="two", all_analog=analog)(h)
            net = hk.without_apply_rng(hk.transform(two))
            p = net.init(jax.random.PRNGKey(0), jnp.array(x))

            def c(v):
                k1, k2 = len(m.nodes), len(m2.nodes)
                h = x @ refc.circuit(n, refc.spec(m), v[:k1], v[k1:2 * k1], v[2 * k1:2 * k1 + n]).T
                h = h * np.abs(h)
                w = v[2 * k1 + n:]
                o = h @ refc.circuit(n, refc.spec(m2), w[:k2], w[k2:2 * k2], w[2 * k2:]).T
                return o, np.sum(np.abs(o - x[::-1]) ** 2)
            v0 = np.concatenate([m.thetas, m.phis, np.zeros(n), m2.thetas, m2.phis, np.zeros(n)])
            ck.state("two layers", f, n, analog)
            ck.trans(2)
            ck.close(net.apply(p, jnp.array(x)), c(v0)[0], f"output of two layers of {f}", 5e-5, key="two layers")
            g = jax.grad(lambda p: jnp.sum(jnp.abs(net.apply(p, jnp.array(x)) - t) ** 2))(p)
            got = np.concatenate([np.asarray(g[l][q]).ravel() for l in sorted(g, key=lambda s: "two" in s) for q in ("theta", "phi", "gamma")])
            num = np.array([(c(v0 + d)[1] - c(v0 - d)[1]) / 2e-5 for d in np.eye(v0.size) * 1e-5])
            ck.close(got, num, f"gradient through two layers of {f} all_analog={analog}", 2e-4, key="two layers gradient")
        ck.trace()
