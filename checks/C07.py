"""Parallel nullification: the null basis of a circuit reprograms it from any state, also with coupler errors."""
import copy
import itertools
import numpy as np
from mc import refc, circ

TOL = 2e-4
ASSUMPTIONS = ["lossless circuits; equality up to the phases of the outputs, which nullification cannot see; tolerance 2e-4 (single precision basis)",
               "coupler errors small enough that every splitting ratio is reachable"]
STYLES = ("top", "bottom", "differential")


def BOUNDS(tier):
    return (f"all circuits of <= {2 if tier == 'quick' else 3} nodes on 3 rails (and those of 2 and 3 nodes side by side on 4 and 6 rails in several numberings and listings) x theta in {{0, pi/2, pi, generic}} per node, and named "
            f"architectures up to {'16' if tier == 'quick' else '16'} rails, x 3 phase styles x start states {{zero, generic, pi}} x coupler errors {{0, equal, unequal}}")


def cases(tier, seed):
    k = 2 if tier == "quick" else 3
    nw = len(list(circ.words(3, k)))
    out = [{"kind": "words", "style": s, "k": k, "lo": i, "hi": i + 4} for s in STYLES for i in range(0, nw, 4)]
    out += [{"kind": "parallel", "style": s, "part": i} for s in STYLES for i in range(3)]
    fams = circ.FAMILIES if tier == "quick" else circ.DEEP_FAMILIES
    out += [{"kind": "family", "family": f, "n": n, "style": s} for f, n in fams for s in STYLES] + [{"kind": "family", "family": f, "n": n, "style": s} for f, n, s in circ.LARGE]
    return out


def restart(ck, m, other, start, label, same):
    k, n = len(m.nodes), m.n
    basis = m.nullification_basis
    ck.trans()
    target = refc.mesh_ref(m)
    keep = tuple(p.copy() for p in m.params)
    # the null basis: light of the c-th vector leaves no power in the bottom... of column c (checked through reprogramming)
    ck.check(basis.shape == (m.num_columns, n), f"shape of the null basis of {label}", key="basis shape")
    ck.close(np.linalg.norm(basis, axis=1) ** 2, [len(c.nodes) for c in m.columns], f"powers of the null basis of {label}", TOL, key="basis power")
    other.params = start
    given = basis.copy()
    other.program_by_null_basis(given)
    ck.trans()
    ck.check(np.array_equal(given, basis), f"null basis changed while programming {label}", key="basis changed")
    got = refc.mesh_ref(other)
    ck.close(np.abs(got @ target.conj().T), np.eye(n), f"{label} reprogrammed from its null basis", TOL, key=f"reprogrammed same={same}")
    lib = np.asarray(other.matrix_fn()(other.params, np.eye(n, dtype=complex)))
    ck.close(np.abs(lib @ target.conj().T), np.eye(n), f"matrix of {label} reprogrammed from its null basis", TOL, key=f"reprogrammed matrix same={same}")
    ck.check(all(np.array_equal(a, b) for a, b in zip(keep, m.params)), f"{label}: phases of the original circuit changed", key="original changed")
    ck.trace()
    ck.outcome(np.round(other.thetas, 3).tobytes())


def starts(m):
    k, n = len(m.nodes), m.n
    yield "zero", (np.zeros(k), np.zeros(k), np.zeros(n))
    yield "generic", (refc.generic(51, k, hi=3), refc.generic(52, k, hi=6), refc.generic(53, n, hi=6))
    yield "pi", (np.full(k, np.pi), np.full(k, np.pi), np.zeros(n))


def run(case, ck):
    if case["kind"] == "words":
        for word in list(circ.words(3, case["k"]))[case["lo"]:case["hi"]]:
            k = len(word)
            g = refc.generic(90 + ck.seed, 2 * k + 3, lo=0.4, hi=2.6)
            for c in itertools.product((0.0, np.pi / 2, np.pi, None), repeat=k):
                for ids in ([tuple(range(k))] + ([tuple(range(k))[::-1]] if k > 1 else [])):
                    m = circ.custom(word, 3, case["style"], ids)
                    th = np.array([g[i] if a is None else a for i, a in enumerate(c)])
                    m.params = (th, g[k:2 * k] * 2, g[2 * k:])
                    for nm, s in starts(m):
                        ck.state(word, c, ids, case["style"], nm)
                        restart(ck, m, circ.custom(word, 3, case["style"], ids), s, f"nodes {word} ids {ids} {case['style']} theta {c} from {nm}", True)
        ck.sample({"word": word})
    elif case["kind"] == "parallel":
        for n, word, ids, listing in circ.parallel(5 if ck.tier == "quick" else 1)[case["part"]::3]:
            for err in ("ideal", "small"):
                m, other = (circ.custom(word, n, case["style"], ids, None, "ideal", listing) for _ in range(2))
                if err == "small":  # splitting errors of its own at every node
                    other = other.add_error_mean(0.03 * (1 + np.stack([other.node_idxs, -np.asarray(other.node_idxs)], -1) / len(word)))
                k = len(word)
                m.params = (refc.generic(11, k, lo=0.6, hi=2.4), refc.generic(12, k, hi=6), refc.generic(13, n, hi=6))
                for nm, s in list(starts(m))[1:2]:
                    ck.state(word, ids, listing, case["style"], err)
                    restart(ck, m, other, s, f"nodes {word} ids {ids} listing {listing} {case['style']} {err} from {nm}", err == "ideal")
    else:
        f, n, style = case["family"], case["n"], case["style"]
        for err in ("ideal", "equal", "unequal"):
            m = circ.family(f, n, style, "ideal", seed=5 + ck.seed)
            th, ph, ga = m.params
            m.params = (0.6 + 0.55 * th, ph, ga)
            other = circ.family(f, n, style, "ideal", seed=6)
            if err != "ideal":
                other = other.add_error_mean(0.05) if err == "equal" else other.add_error_mean(0.06, 0, error_right=-0.04)
                back = m.add_error_mean(-0.03)
                back.params = m.params
            for nm, s in starts(m):
                ck.state(f, n, style, err, nm)
                restart(ck, m, other, s, f"{f}({n}) {style} into {err} couplers from {nm}", err == "ideal")
                if err != "ideal":  # basis of an imperfect circuit into another imperfect one
                    ck.state(f, n, style, err, nm, "back")
                    restart(ck, back, other, s, f"imperfect {f}({n}) {style} into {err} couplers from {nm}", False)
        ck.sample({"family": f, "n": n, "style": style})
