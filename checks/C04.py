"""Energy conservation, passivity and reciprocity of circuits."""
import itertools
import numpy as np
from mc import refc, circ

ASSUMPTIONS = ["double precision inputs given explicitly; tolerance 3e-6 (the default coupler errors are single precision)"]


def BOUNDS(tier):
    return (f"all circuits of <= {2 if tier == 'quick' else 3} nodes on 3 rails and the named architectures up to "
            f"{5 if tier == 'quick' else 9} rails x 4 phase styles x all phases in {{0, pi/2, pi, generic}} per node (words) x "
            "errors in {0, equal, unequal} x losses in {none, per node}")


def cases(tier, seed):
    k = 2 if tier == "quick" else 3
    nw = len(list(circ.words(3, k, ordered=False)))
    step = 14 if tier == "quick" else 9
    out = [{"kind": "words", "style": s, "k": k, "lo": i, "hi": i + step} for s in circ.STYLES for i in range(0, nw, step)]
    fams = circ.FAMILIES if tier == "quick" else circ.DEEP_FAMILIES
    out += [{"kind": "family", "family": f, "n": n} for f, n in fams] + [{"kind": "family", "family": f, "n": n, "styles": [s]} for f, n, s in circ.LARGE]
    return out


def judge(ck, m, params, err, label, full=False):
    n = m.n
    eye = np.eye(n, dtype=complex)
    u = np.asarray(m.matrix_fn()(params, eye))
    b = np.asarray(m.matrix_fn(back=True)(params, eye))
    ck.trans(2)
    ck.close(b, u.T, f"reciprocity of {label}", 3e-6, key="reciprocity")
    if full:
        ck.trans(2)
        ck.close(m.matrix(params), u, f"matrix of given phases, {label}", 5e-5, key="matrix(params)")
        ck.close(m.matrix(params, back=True), u.T, f"backward matrix of given phases, {label}", 5e-5, key="matrix(params) back")
    s = np.linalg.svd(u, compute_uv=False)
    if err in ("ideal", "equal", "unequal"):
        ck.close(u.conj().T @ u, eye, f"power in = power out of {label}", 3e-6, key="unitary")
    else:
        ck.check(s.max() <= 1 + 3e-6, f"{label} amplifies: largest singular value {s.max():.6f}", key="passive")
    ck.outcome(np.round(s, 4).tobytes(), np.round(u, 3).tobytes())
    ck.trace(2)


def elements(ck, m, label):
    """Matrix elements of all nodes at once, for the circuit's own and for given phases, in every style and direction."""
    from simphox.circuit import PhaseStyle
    errors, losses = circ.err_arrays(m)
    k = len(m.nodes)
    given = refc.generic(61, k, hi=3), refc.generic(62, k, hi=6)
    own = str(m.phase_style.value)
    for phases, style, jx, back in itertools.product((None, given), (None,) + circ.STYLES, (False, True), (False, True)):
        if jx and (style is None or phases is None):
            continue
        th, ph = m.params[:2] if phases is None else phases
        kw = {} if phases is None else {"thetas": th, "phis": ph}
        if style is not None:
            kw["phase_style"] = PhaseStyle(style)
        if back:
            kw["back"] = True
        if jx:
            kw["use_jax"] = True
        t11, t12, t21, t22 = np.asarray(m.parallel_mzi(**kw))
        ck.trans()
        want = np.array([refc.node(th[i], ph[i], *errors[i], *losses[i], style or own) for i in range(k)])
        got = np.array([[t11, t21], [t12, t22]]).transpose(2, 0, 1)
        ck.close(got, want.transpose(0, 2, 1) if back else want, f"node elements of {label}, options {sorted(kw)} {style}", 3e-6, key="elements")


def run(case, ck):
    if case["kind"] == "words":
        for word in list(circ.words(3, case["k"], ordered=False))[case["lo"]:case["hi"]]:
            k = len(word)
            g = refc.generic(70 + ck.seed, 2 * k + 3, lo=0.2, hi=2.9)
            for err in circ.ERR:
                m = circ.custom(word, 3, case["style"], list(range(k))[::-1], None, err)
                vals = [(0.0, 0.0), (np.pi / 2, np.pi), (np.pi, 0.0), (None, None)]
                for c in itertools.product(vals, repeat=k):
                    th = np.array([g[i] if a is None else a for i, (a, _) in enumerate(c)])
                    ph = np.array([g[k + i] if a is None else a for i, (_, a) in enumerate(c)])
                    ck.state(word, case["style"], err, c)
                    judge(ck, m, (th, ph, g[2 * k:]), err, f"nodes {word} {case['style']} {err} phases {c}")
        ck.sample({"word": word})
    else:
        import jax.numpy as jnp
        for style, err in itertools.product(case.get("styles", circ.STYLES), circ.ERR):
            m = circ.family(case["family"], case["n"], style, err, seed=ck.seed)
            for shift in (0.0, 1.3, -40.0):
                ck.state(case["family"], case["n"], style, err, shift)
                judge(ck, m, tuple(p + shift for p in m.params), err, f"{case['family']}({case['n']}) {style} {err}", True)
            if err in ("unequal", "both"):
                eye = jnp.eye(m.n, dtype=complex)
                u = np.asarray(m.matrix_fn(use_jax=True)(m.params, eye))
                b = np.asarray(m.matrix_fn(use_jax=True, back=True)(m.params, eye))
                ck.trans(2)
                ck.close(b, u.T, f"jax reciprocity of {case['family']}({case['n']}) {style} {err}", 3e-6, key="jax reciprocity")
                if err == "unequal":
                    ck.close(u.conj().T @ u, np.eye(m.n), f"jax power of {case['family']}({case['n']}) {style}", 3e-6, key="jax unitary")
                # fields inside the circuit: power never grows from layer to layer, and is conserved without losses
                for explicit in (True, False):
                    if explicit and style not in circ.EXPLICIT:
                        continue
                    for back in (False, True):
                        prop = np.asarray(m.propagate(np.eye(m.n, dtype=complex), back=back, explicit=explicit))
                        p = np.sum(np.abs(prop) ** 2, axis=1)
                        ck.trans()
                        d = np.diff(p, axis=0)
                        if err == "unequal":
                            ck.check(np.max(np.abs(d)) < 3e-6, f"power inside {case['family']}({case['n']}) {style} is not conserved", key="layer power")
                        else:
                            ck.check(np.max(d) < 3e-6, f"power inside {case['family']}({case['n']}) {style} grows", key="layer power")
            elements(ck, m, f"{case['family']}({case['n']}) {style} {err}")
        ck.sample({"family": case["family"], "n": case["n"]})
