"""Deriving circuits from circuits: every history of derivations keeps node identity, and never changes its ancestors."""
import itertools
import numpy as np
from mc import refc, circ

TOL = 3e-5
ASSUMPTIONS = ["reference: a record of (top, bottom, column, phases, errors, losses) per node number, updated by each documented operation",
               "operations documented as in-place (offsets, column inversion) are explored on circuits of their own"]
OPS = ("mean", "mean_right", "mean_array", "loss", "variance0", "ordered", "aggregate_columns", "aggregate_nodes", "set_params", "rebuild")


def BOUNDS(tier):
    return (f"all histories of <= {2 if tier == 'quick' else 3} derivations out of {len(OPS)} from 7 circuits (nodes listed in and out of "
            "light order) x 3 phase styles; every circuit of the history is re-evaluated after every step; all in-place histories of <= 3 offsets/inversions")


def cases(tier, seed):
    d = 2 if tier == "quick" else 3
    out = [{"base": b, "style": s, "first": o, "depth": d} for b in range(7) for s in ("top", "bottom", "differential") for o in OPS]
    out += [{"inplace": b} for b in range(7)]
    out += [{"random": b} for b in range(7)]
    return out


def base(b, style):
    if b < 5:
        f, n = [("tree", 4), ("tree", 5), ("chain", 4), ("rectangular", 4), ("butterfly", 4)][b]
        return circ.family(f, n, style, "unequal", seed=b)
    m = circ.custom(((0, 1), (1, 2), (2, 0)), 3, style, (2, 0, 1), None, "both", (2, 0, 1)) if b == 5 else \
        circ.custom(((0, 2), (1, 3), (3, 0)), 4, style, (1, 2, 0), None, "equal", (1, 0, 2))
    m.params = circ.generic_params(m, b)
    return m


class Ref:
    def __init__(self, m):
        self.n, self.spec = m.n, refc.spec(m)
        self.params = tuple(np.array(p) for p in m.params)
        e, l = circ.err_arrays(m)
        self.e, self.l = e, l
        self.style = str(m.phase_style.value)

    def copy(self):
        r = object.__new__(Ref)
        r.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})
        return r

    def matrix(self):
        return refc.circuit(self.n, self.spec, *self.params, self.style, self.e, self.l)


def apply(op, m, r, step):
    import simphox.circuit as sc
    from simphox.circuit.forward import ForwardMesh
    r = r.copy()
    k = len(m.nodes)
    ids = [int(q.node_id) for q in m.nodes]
    g = np.random.RandomState(100 + step)
    if op == "mean":
        d, r.e, r.l = m.add_error_mean(0.08), np.full((k, 2), 0.08), np.zeros((k, 2))
    elif op == "mean_right":
        d, r.e, r.l = m.add_error_mean(0.05, -0.4, error_right=-0.11), np.tile([0.05, -0.11], (k, 1)), np.full((k, 2), -0.4)
    elif op == "mean_array":
        e, l = g.rand(k, 2) * 0.2, -g.rand(k, 2)
        d = m.add_error_mean(e.copy(), l.copy())
        for j, i in enumerate(ids):  # per listed node
            r.e[i], r.l[i] = e[j], l[j]
    elif op == "loss":
        d, r.e, r.l = m.add_error_mean(loss_db=-0.7), np.zeros((k, 2)), np.full((k, 2), -0.7)
    elif op == "variance0":
        d = m.add_error_variance(0.0, 0.0, equal_splitter_error=step % 2 == 0)
    elif op == "ordered":
        d = m.column_ordered
    elif op == "aggregate_columns":
        d = ForwardMesh.aggregate(m.columns)
        d.params = m.params
    elif op == "aggregate_nodes":
        d = ForwardMesh.aggregate(list(m.nodes))
        d.params = m.params
        r.style = "top"
    elif op == "set_params":
        d = ForwardMesh(m.nodes, m.phase_style)
        d.params = circ.generic_params(d, 70 + step)
        r.params = tuple(np.array(p) for p in d.params)
    elif op == "rebuild":
        d = ForwardMesh(list(m.nodes)[::-1], m.phase_style)
        d.params = m.params
    return d, r


def agree(ck, m, r, label):
    ck.trans(2)
    want = r.matrix()
    ck.close(m.matrix(), want, f"matrix after {label}", TOL, key="matrix")
    ck.close(m.matrix_fn(back=True)(m.params), want.T, f"backward matrix after {label}", TOL, key="back")
    if r.style in circ.EXPLICIT:
        ck.close(np.asarray(m.propagate(np.eye(m.n, dtype=complex)))[-1], want, f"propagation after {label}", TOL, key="propagate")
    e, l = circ.err_arrays(m)
    ck.close(e, r.e, f"coupler errors by node after {label}", 1e-12, key="errors")
    ck.close(l, r.l, f"losses by node after {label}", 1e-12, key="losses")
    ck.close(m.all_errors, r.e, f"error table after {label}", 1e-12, key="all_errors")
    ck.close(m.all_losses, r.l, f"loss table after {label}", 1e-12, key="all_losses")
    for nm, a, b in zip(("theta", "phi", "gamma"), m.params, r.params):
        ck.close(a, b, f"{nm} after {label}", 1e-12, key="params")
    t = m.mzi_terms
    c, s = np.cos(np.pi / 4 + r.e), np.sin(np.pi / 4 + r.e)
    ck.close(t, np.array([c[:, 1] * c[:, 0], c[:, 1] * s[:, 0], s[:, 1] * c[:, 0], s[:, 1] * s[:, 0]]), f"coupler terms after {label}", 1e-6, key="mzi_terms")
    ck.outcome(np.round(want, 4).tobytes())


def run(case, ck):
    if "first" in case:
        m0 = base(case["base"], case["style"])
        frontier = [([(m0, Ref(m0))], ())]
        for d in range(case["depth"]):
            nxt = []
            for hist, names in frontier:
                for op in ([case["first"]] if d == 0 else OPS):
                    m, r = hist[-1]
                    new = apply(op, m, r, d)
                    ck.trans()
                    h, nm = hist + [new], names + (op,)
                    ck.state(case["base"], case["style"], nm)
                    for (mm, rr), q in zip(h, range(len(h))):
                        agree(ck, mm, rr, f"{'.'.join(nm)} from circuit {case['base']} {case['style']} (circuit {q} of the history)")
                    # editing the phases of the derived circuit must not reach its ancestors
                    if op not in ("nothing",):
                        dm = new[0]
                        save = dm.params
                        dm.params = tuple(p + 0.5 for p in save)
                        mm, rr = hist[-1]
                        ck.close(mm.matrix(), rr.matrix(), f"{'.'.join(nm)}: changing phases of the derived circuit changed its origin", TOL, key="aliased phases")
                        dm.params = save
                        p = dm.params
                        p[0][:] = 99.0
                        ck.check(not np.any(dm.params[0] == 99.0), "the returned phases are not a copy", key="params copy")
                    ck.trace()
                    nxt.append((h, nm))
            frontier = nxt
        ck.sample({"base": case["base"], "history": list(names)})
    elif "inplace" in case:
        for n in range(4):
            for word in itertools.product(("offset0", "invert", "offset_column"), repeat=n):
                m = base(case["inplace"], "top")
                r = Ref(m)
                shift = 0
                for op in word:
                    ck.trans()
                    if op == "invert":
                        if shift:
                            continue
                        m.invert_columns()
                        r.spec = [(t, b, m.num_columns - 1 - c, i) for t, b, c, i in r.spec]
                    elif op == "offset_column":
                        m.offset_column(2)
                        shift += 2
                    else:
                        m.offset(0)
                ck.state(case["inplace"], word)
                m.offset_column(-shift)
                agree(ck, m, r, f"in-place {word} on circuit {case['inplace']}")
                ck.trace()
        # two circuits behind one another
        from simphox.circuit.forward import ForwardMesh
        for swap in (False, True):
            a, b = base(case["inplace"], "top"), base(case["inplace"], "top")
            b.params = circ.generic_params(b, 33)
            want = refc.circuit(b.n, refc.spec(b), b.params[0], b.params[1], np.zeros(b.n), "top", *circ.err_arrays(b)) @ \
                refc.circuit(a.n, refc.spec(a), a.params[0], a.params[1], np.zeros(a.n), "top", *circ.err_arrays(a))
            pa, pb = a.params, b.params
            b.offset(a.num_nodes).offset_column(a.num_columns)
            both = ForwardMesh.aggregate([b, a] if swap else [a, b])
            both.params = (np.hstack([pa[0], pb[0]]), np.hstack([pa[1], pb[1]]), np.zeros(a.n))
            ck.state(case["inplace"], "cascade", swap)
            ck.trans()
            ck.close(both.matrix(), want, f"circuit {case['inplace']} twice in a row (listed {'last' if swap else 'first'} first)", TOL, key="cascade")
            ck.trace()
    else:
        b = case["random"]
        m = base(b, "top")
        r = Ref(m)
        for eq in (True, False):
            v = m.add_error_variance(0.1, 0.2, equal_splitter_error=eq)
            ck.state(b, "variance", eq)
            ck.trans(2)
            agree(ck, m, r, f"circuit {b} after deriving a random variant")
            ck.close(v.matrix(), refc.mesh_ref(v), f"random variant of circuit {b}", TOL, key="variance matrix")
            e, _ = circ.err_arrays(v)
            de = e - r.e
            ck.check(np.all(np.abs(de) > 0), "no error was added to some coupler", key="variance zero")
            ck.check(not eq or np.allclose(de[:, 0], de[:, 1]), "left and right errors differ although equal errors were asked for", key="variance equal")
            ck.check(eq or np.all(np.abs(de[:, 0] - de[:, 1]) > 0), "left and right errors are equal although different errors were asked for", key="variance unequal")
            ck.check(all(np.array_equal(p, q) for p, q in zip(v.params, m.params)), "phases of the random variant", key="variance phases")
            ck.trace()
        for const, ge in itertools.product((True, False), repeat=2):
            p = m.phases(0.3, constant=const, gamma_error=ge)
            ck.state(b, "phases", const, ge)
            ck.trans()
            if const:
                ck.close(p[0] - m.params[0], np.full(m.num_nodes, 0.3), "constant phase error", 1e-9, key="phase error")
                ck.close(p[1] - m.params[1], np.full(m.num_nodes, 0.3), "constant phase error", 1e-9, key="phase error")
            ck.check(np.allclose(p[2], m.params[2]) != ge, "output phase errors", key="gamma error")
            ck.trace()
