"""Every evaluation path of a circuit equals the product of its node matrices."""
import itertools
import numpy as np
from mc import refc, circ

ASSUMPTIONS = ["tolerance 3e-5 relative: the default input of the evaluation functions is single precision"]
TOL = 3e-5


def BOUNDS(tier):
    k = 2 if tier == "quick" else 3
    return (f"all circuits of <= {k} nodes on 3 rails (any pair of rails, top above or below bottom, every numbering, "
            f"every listing order), circuits with nodes side by side on 4 and 6 rails (numberings x listings), phases theta in {{0, pi/2, pi, generic}}, phi in {{0, pi, generic}}; named architectures up to "
            f"16 rails with generic phases; x 4 phase styles x 5 error/loss assignments x "
            "{numpy, jax, jit} x {transfer matrix, layered propagation, layered propagation with explicit couplers} x "
            "{forward, backward} x input shapes")


def cases(tier, seed):
    out = []
    k = 2 if tier == "quick" else 3
    ws = list(circ.words(3, k, ordered=False))
    step = 12 if tier == "quick" else 9
    for style in circ.STYLES:
        for i in range(0, len(ws), step):
            out.append({"kind": "words", "style": style, "lo": i, "hi": i + step, "k": k})
    out += [{"kind": "parallel", "style": style, "part": i} for style in circ.STYLES for i in range(4)]
    fams = circ.FAMILIES if tier == "quick" else circ.DEEP_FAMILIES
    for f, n, style in [(f, n, s) for f, n in fams for s in circ.STYLES] + circ.LARGE:
        out.append({"kind": "family", "family": f, "n": n, "style": style,
                    "errs": ["ideal", "unequal", "both"] if tier == "quick" else list(circ.ERR)})
    return out


def run(case, ck):
    if case["kind"] == "words":
        ws = list(circ.words(3, case["k"], ordered=False))[case["lo"]:case["hi"]]
        for word in ws:
            k = len(word)
            numberings = list(itertools.permutations(range(k)))
            for ids in numberings:
                cols = circ.asap(word, 3)
                listings = [None] if k == 1 or k > 2 and ids != numberings[0] else [None, list(range(k))[::-1]]
                for listing in listings:
                    for err in (("ideal", "both") if ids == numberings[0] else ("both",)):
                        m = circ.custom(word, 3, case["style"], ids, cols, err, listing)
                        phases(case, ck, m, word, ids, listing, err)
        ck.sample({"word": ws[0], "style": case["style"]})
    elif case["kind"] == "parallel":
        for n, word, ids, listing in circ.parallel(29 if ck.tier == "quick" else 3)[case["part"]::4]:
            m = circ.custom(word, n, case["style"], ids, None, "both", listing)
            m.params = circ.generic_params(m, ck.seed)
            label = f"nodes {word} ids {ids} listing {listing} {case['style']} both"
            ck.state(word, ids, listing, case["style"])
            want = refc.mesh_ref(m)
            ck.trans(2)
            ck.close(m.matrix_fn()(m.params), want, f"transfer matrix of {label}", TOL, key="matrix")
            ck.close(m.matrix_fn(back=True)(m.params), want.T, f"backward transfer matrix of {label}", TOL, key="back")
            compare(ck, m, label, full=False)
            ck.trace()
    else:
        for err in case["errs"]:
            m = circ.family(case["family"], case["n"], case["style"], err, seed=case["n"])
            ck.state(case["family"], case["n"], case["style"], err)
            compare(ck, m, f"{case['family']}({case['n']}) {case['style']} {err}", full=err != "ideal" or ck.tier == "thorough")
        ck.sample({k: case[k] for k in ("family", "n", "style")})


def phases(case, ck, m, word, ids, listing, err):
    k = len(word)
    g = refc.generic(7 + ck.seed, 2 * k + 3, lo=0.2, hi=2.9)
    label = f"nodes {word} ids {ids} listing {listing} {case['style']} {err}"
    gamma = g[2 * k:]
    th_alpha = [0.0, np.pi / 2, np.pi, None]
    ph_alpha = [0.0, np.pi, None]
    combos = list(itertools.product(itertools.product(th_alpha, ph_alpha), repeat=k)) if k == 1 or k == 2 and ids == (0, 1) and listing is None else \
        [tuple((None, None) if j != i else c for j in range(k)) for i in range(k)
         for c in itertools.product(th_alpha, ph_alpha)]
    fn = m.matrix_fn()
    bk = m.matrix_fn(back=True)
    for c in combos:
        th = np.array([g[i] if a is None else a for i, (a, _) in enumerate(c)])
        ph = np.array([g[k + i] if b is None else b for i, (_, b) in enumerate(c)])
        params = (th, ph, gamma)
        ck.state(word, ids, listing, case["style"], err, c)
        want = refc.mesh_ref(m, params)
        ck.trans(2)
        ck.close(fn(params), want, f"transfer matrix of {label}", TOL, key="matrix")
        ck.close(bk(params), want.T, f"backward transfer matrix of {label}", TOL, key="back")
        ck.trace(2)
    m.params = params
    ck.outcome(np.round(want, 5).tobytes())
    compare(ck, m, label, full=ids == tuple(range(k)) and listing is None and err == "both" and k == 2
            and (ck.tier == "thorough" or word[0] in ((0, 2), (2, 1))))


def layers(m, style, e, l):
    """Reference fields after every phase shifter and coupler layer: per column phi, left, theta, right; then gamma."""
    th, ph, ga = (np.asarray(p) for p in m.params)
    n, sp = m.n, refc.spec(m)
    steps = []
    for c in range(max(q[2] for q in sp) + 1):
        col = [q for q in sp if q[2] == c]
        for what in ("phi", "left", "theta", "right"):
            s = np.eye(n, dtype=complex)
            for t, b, _, i in col:
                arm = t if style == "top" else b
                if what == "phi":
                    s[arm, arm] = refc.arm(ph[i], l[i, 1])
                elif what == "theta":
                    s[arm, arm] = refc.arm(th[i], l[i, 0])
                else:
                    s = refc.embed(refc.dc(e[i, int(what == "right")]), n, t, b) @ s
            steps.append(s)
    steps.append(np.diag(np.exp(1j * ga)))
    return steps


def compare(ck, m, label, full):
    import jax
    import jax.numpy as jnp
    style = str(getattr(m.phase_style, "value", m.phase_style))
    n = m.n
    want = refc.mesh_ref(m)
    e, l = circ.err_arrays(m)
    kinds = [("e0", np.eye(n)[0]), ("real block", np.arange(2 * n).reshape(n, 2) * 1.0),
             ("integer vector", np.arange(1, n + 1)), ("complex block", np.exp(1j * np.arange(3 * n)).reshape(n, 3)),
             ("complex vector", np.exp(0.3j * np.arange(n)))]
    fwd, bwd = m.matrix_fn(), m.matrix_fn(back=True)
    ck.trans(4)
    ck.close(m.matrix(), want, f"matrix of {label}", TOL, key="matrix")
    ck.close(m.matrix(back=True), want.T, f"backward matrix of {label}", TOL, key="back")
    for name, v in kinds:
        for f, ref in ((fwd, want), (bwd, want.T)):
            w = v.copy()
            w.setflags(write=False)
            got = f(m.params, w)
            ck.trans()
            ck.close(np.asarray(got).reshape(n, -1), ref @ v.reshape(n, -1), f"{name} through {label}", TOL, key="inputs")
    ck.trace(12)
    # layered propagation, numpy
    for explicit in (True, False):
        if explicit and style not in circ.EXPLICIT:
            continue
        for back in (False, True):
            prop = np.asarray(m.propagate(np.eye(n, dtype=complex), back=back, explicit=explicit))
            ck.trans()
            ck.trace()
            ck.close(prop[0], np.eye(n), f"first propagated field of {label}", TOL, key="propagate first")
            ck.close(prop[-1], want.T if back else want, f"propagated field of {label} back={back} explicit={explicit}",
                     TOL, key=f"propagate back={back} explicit={explicit}")
            if explicit:
                steps = layers(m, style, e, l)
                u, ref = np.eye(n, dtype=complex), [np.eye(n, dtype=complex)]
                for s in ([q.T for q in steps[::-1]] if back else steps):
                    u = s @ u
                    ref.append(u)
                ck.close(prop, np.array(ref), f"all propagated layers of {label} back={back}", TOL, key="layers")
            else:
                cols = sorted({q[2] for q in refc.spec(m)})
                ref = [np.eye(n, dtype=complex)]
                gam = np.diag(np.exp(1j * np.asarray(m.params[2])))
                if back:
                    ref.append(gam)
                u = ref[-1]
                for c in (cols[::-1] if back else cols):
                    mats = refc.circuit(n, [q for q in refc.spec(m) if q[2] == c], m.params[0], m.params[1], np.zeros(n),
                                        style, e, l)
                    u = (mats.T if back else mats) @ u
                    ref.append(u)
                if not back:
                    ref.append(gam @ u)
                ck.close(prop, np.array(ref), f"fields after every column of {label} back={back}", TOL, key="column fields")
    for cutoff in range(m.num_columns):
        if cutoff == 0:
            continue
        prop = np.asarray(m.propagate(np.eye(n, dtype=complex), column_cutoff=cutoff, explicit=False))
        ref = refc.circuit(n, [q for q in refc.spec(m) if q[2] < cutoff], m.params[0], m.params[1], np.zeros(n), style, e, l)
        ck.trans()
        ck.close(prop[-1], ref, f"fields in front of column {cutoff} of {label}", TOL, key="cutoff")
    if not full:
        return
    # jax paths
    params = tuple(jnp.array(p) for p in m.params)
    for back in (False, True):
        ref = want.T if back else want
        f = m.matrix_fn(use_jax=True, back=back)
        ck.trans(3)
        ck.close(f(params), ref, f"jax matrix of {label} back={back}", TOL, key=f"jax back={back}")
        ck.close(jax.jit(f)(params), ref, f"jit matrix of {label} back={back}", TOL, key=f"jit back={back}")
        v = kinds[3][1]
        ck.close(jax.jit(f)(params, jnp.array(v)), ref @ v, f"jax block through {label} back={back}", TOL, key="jax inputs")
        # other errors and losses given as arguments
        e2, l2 = e[::-1] * 0.5 + 0.03, l * 0.3 - 0.2
        ref2 = refc.circuit(n, refc.spec(m), m.params[0], m.params[1], m.params[2], style, e2, l2)
        for nm, g in (("numpy", m.matrix_fn(back=back)), ("jax", f)):
            ck.trans()
            ck.close(g(m.params, np.eye(n, dtype=complex), e2, l2), ref2.T if back else ref2,
                     f"{nm} matrix with given errors of {label} back={back}", TOL, key="given errors")
        for explicit in (True, False):
            if explicit and style not in circ.EXPLICIT:
                continue
            a = np.asarray(m.propagate_matrix_fn(back=back, explicit=explicit, use_jax=True)(params, jnp.eye(n, dtype=complex)))
            b = np.asarray(m.propagate_matrix_fn(back=back, explicit=explicit, use_jax=False)(m.params, np.eye(n, dtype=complex)))
            ck.trans(2)
            ck.close(a, b, f"jax and numpy propagation of {label} back={back} explicit={explicit}", TOL, key="jax propagate")
        ck.trace(6)
    # node matrices of the circuit elements themselves
    if style == "top":
        u = np.eye(n, dtype=complex)
        for node in sorted(m.nodes, key=lambda q: q.column):
            u = node.mzi_node_matrix(m.params[0][node.node_id], m.params[1][node.node_id]) @ u
            ck.trans()
        ck.close(np.diag(np.exp(1j * m.params[2])) @ u, want, f"product of the node matrices of {label}", TOL, key="nodes")
