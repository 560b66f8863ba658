"""Phases drawn at random make circuits uniformly (Haar) random; weights stay with their nodes."""
import contextlib
import numpy as np
from scipy.stats import beta as betadist
from mc import circ, refc

ASSUMPTIONS = ["the uniform draws behind random phases are replaced by enumerated values (np.random.rand, random, random_sample, uniform); draws taken from elsewhere cannot be judged and are skipped",
               "uniformity is decided by densities: the volume element of the reference circuit by all phases (double precision, central differences) must be the product of the densities drawn",
               "node phases are independent draws; tolerance 1e-6 (quantiles), 1e-5 (volume elements)"]
GRID = np.array([0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.98])


def BOUNDS(tier):
    return (f"trees and chains of 2 to {12 if tier == 'quick' else 24} rails (also embedded), butterflies of 2, 4, 8 and 16, rectangular and triangular meshes and tree cascades of 2 to {5 if tier == 'quick' else 7} rails, "
            f"listed in their own, reversed and column order, copied with coupler errors, x 4 phase styles; {len(GRID)} quantiles of every phase; every single draw varied alone")


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kind": "mesh", "family": f, "n": n} for f in ("tree", "chain") for n in range(2, 13 if q else 25)]
    out += [{"kind": "mesh", "family": "tree_embedded", "n": n} for n in (4, 6, 9)] + [{"kind": "mesh", "family": "butterfly", "n": n} for n in (2, 4, 8, 16)]
    out += [{"kind": "mesh", "family": f, "n": n} for f in ("rectangular", "triangular", "tree_cascade") for n in range(2, 6 if q else 8)]
    return out


class Uniform:
    """Stand-in for the uniform generators: one value for all draws, but for the draw number `odd`."""

    def __init__(self, value, odd=None, other=None):
        self.value, self.odd, self.other, self.count = value, odd, other, 0

    def rand(self, *shape):
        k = int(np.prod(shape)) if shape else 1
        a = np.full(k, float(self.value))
        if self.odd is not None and self.count <= self.odd < self.count + k:
            a[self.odd - self.count] = self.other
        self.count += k
        return a.reshape(shape) if shape else float(a[0])

    def random(self, size=None):
        return self.rand() if size is None else self.rand(*np.atleast_1d(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape or None
        return low + (np.asarray(high) - low) * self.random(size)


@contextlib.contextmanager
def drawing(value, odd=None, other=None):
    d = Uniform(value, odd, other)
    names = {"rand": d.rand, "random": d.random, "random_sample": d.random, "uniform": d.uniform}
    keep = {k: getattr(np.random, k) for k in names}
    for k, f in names.items():
        setattr(np.random, k, f)
    try:
        yield d
    finally:
        for k, f in keep.items():
            setattr(np.random, k, f)


def connected(sp, n):
    """Inputs that reach the arms (top, bottom) of each node (by id)."""
    at = [{r} for r in range(n)]
    out = {}
    for t, b, c, i in sorted(sp, key=lambda q: q[2]):
        out[i] = (len(at[t]), len(at[b]))
        at[t] = at[b] = at[t] | at[b]
    return out


def tree_arms(sp, n):
    """Inputs collected by the arms of each node of a tree, whose lower output goes on."""
    size = [1] * n
    out = {}
    for t, b, c, i in sorted(sp, key=lambda q: q[2]):
        out[i] = (size[t], size[b])
        size[b] += size[t]
    return out


def volume(n, sp, k, rows, points):
    """Logarithm of the volume element of the circuit's matrix (rows=None) or of one row, at the given phases."""
    out = []
    h = 1e-5
    for p0 in points:
        f = lambda p: refc.circuit(n, sp, p[:k], p[k:2 * k], p[2 * k:])
        u = f(p0)
        used = range(p0.size) if rows is None else list(range(2 * k)) + [2 * k + rows]
        jac = []
        for j in used:
            d = np.zeros(p0.size)
            d[j] = h
            x = (f(p0 + d) - f(p0 - d)) / (2 * h)
            x = u.conj().T @ x if rows is None else x[rows]
            jac.append(np.hstack([x.real.ravel(), x.imag.ravel()]))
        rank = n * n if rows is None else len(used)
        s = np.linalg.svd(np.array(jac), compute_uv=False)
        out.append(np.log(s[:rank]).sum() if s[rank - 1] > 1e-9 else np.nan)
    return np.array(out)


def spec_of(m):
    return [(q["top"], q["bottom"], q["col"], q["id"]) if isinstance(q, dict) else tuple(q) for q in refc.spec(m)]


def expected(ck, fam, m, label):
    """Exponents (a, b) of the density sin^(2a-1) cos^(2b-1) of theta by node id, with which the circuit is uniformly random."""
    n, k = m.n, m.num_nodes
    sp = refc.spec(m)
    flat = spec_of(m)
    if fam in ("tree", "chain", "tree_embedded"):
        c = tree_arms(flat, n)
        want = [(c[i][1], c[i][0]) for i in range(k)]
        row = max(b for _, b, *_ in flat)
    elif fam == "butterfly":
        c = connected(flat, n)
        want = [(c[i][1], c[i][0]) for i in range(k)]
        row = None
    else:
        want, row = None, None
    if fam == "butterfly" or n > (6 if fam in ("tree", "chain", "tree_embedded") else 7):
        return want
    rs = np.random.RandomState(n)
    pts = [np.hstack([rs.uniform(0.5, 2.6, k), rs.uniform(0, 6, k + n)]) for _ in range(2 * k + 3)]
    v = volume(n, sp, k, row, pts)
    basis = np.array([np.hstack([1, np.log(np.sin(p[:k] / 2)), np.log(np.cos(p[:k] / 2))]) for p in pts])
    coef = np.linalg.lstsq(basis, v, rcond=None)[0]
    a, b = (coef[1:k + 1] + 1) / 2, (coef[k + 1:] + 1) / 2
    fit = np.round(np.stack([a, b], 1)).astype(int)
    exact = basis[:, 1:] @ np.hstack([2 * fit[:, 0] - 1, 2 * fit[:, 1] - 1]) - v
    ok = np.all(np.isfinite(v)) and np.ptp(exact) < 1e-5
    ok = ck.check(ok, f"{label}: the volume element at {len(pts)} points is not a product of powers of sines and cosines of the nodes", key="density")
    fit = [tuple(int(y) for y in x) for x in fit]
    ok = ck.check(want is None or fit == want, f"{label}: exponents {fit} of the volume element, {want} by the inputs of the arms", key="density") and ok
    return fit if ok else None


def transmissivity(theta, el, er):
    return np.abs(refc.node(theta, 0.0, el, er)[0, 1]) ** 2


def splitting(ck, fam, seen, want, err, listed, label, key):
    """Splitting ratios by node id at the quantiles. `listed`: the weights in the order of the node list instead of the node ids, which known findings are about."""
    swapped = []
    for i, (a, b) in enumerate(want):
        el, er = err[i]
        ends = sorted((transmissivity(0.0, el, er), transmissivity(np.pi, el, er)))
        got = np.sort([transmissivity(t, el, er) for t in seen[:, i]])
        ref, bad = [np.clip(np.sort(betadist.ppf(GRID, y, x)), *ends) for x, y in (want[i], listed[i])]
        if np.abs(got - ref).max() > 1e-6 and np.abs(got - bad).max() < 1e-6:
            swapped.append(f"node {i}: {listed[i]} instead of {want[i]}")
        else:
            ck.close(got, ref, f"{label}: splitting ratios of node {i} at the quantiles {GRID.tolist()}, arms with {b} and {a} inputs", 1e-6, key=key)
    known = f"weights in list order: {fam}, {'reordered' if any(x in label for x in ('reversed', 'by number', 'column order')) else 'own order'}"
    if swapped and not any(v["key"] == known for v in ck.violations):
        ck.fail(f"{label}: nodes draw their splitting ratios with the weights of the node that is at their place in the list of nodes ({', '.join(swapped[:4])})", known)


def in_list_order(fam, base, want, nodes, back):
    """The weights that each place of the list of nodes has, from the reference: the nodes of chains have the weights of their place in the list, and all others of their id."""
    own = {q.node_id: j if fam in ("chain", "triangular") else q.node_id for j, q in enumerate(base.nodes)}
    return [want[own[back[q.node_id]]] for q in nodes]


def quantiles(ck, fam, make, want, err, listed, label):
    """The phases for every quantile; the same set of values must come from the reference densities."""
    seen = []
    for u in GRID:
        with drawing(u) as d:
            m = make()
        ck.trans()
        k, n = m.num_nodes, m.n
        if d.count == 0:
            return None
        seen.append(np.hstack([np.asarray(x, float) for x in m.params]))
    seen = np.sort(np.array(seen), axis=0)
    k = len(want)
    splitting(ck, fam, seen, want, err, listed, label, "splitting")
    ck.check(np.all((seen[:, :k] >= 0) & (seen[:, :k] <= np.pi + 1e-9)), f"{label}: coupling phases outside of [0, pi]", key="theta range")
    for i in range(k, seen.shape[1]):
        ck.close(np.sort(np.mod(seen[:, i], 2 * np.pi)), 2 * np.pi * GRID, f"{label}: {'differential phase of a node' if i < 2 * k else 'phase of an output'} at the quantiles", 1e-6, key="uniform phases")
    return seen


def run(case, ck):
    import simphox.circuit as sc
    from simphox.circuit import PhaseStyle
    fam, n = case["family"], case["n"]
    base = circ.family(fam, n)
    want = expected(ck, fam, base, f"{fam} of {n}")
    if want is None:
        return
    k = base.num_nodes
    none = np.zeros((k, 2))
    lists = {"own order": list(base.nodes), "reversed": list(base.nodes)[::-1], "by number": sorted(base.nodes, key=lambda q: q.node_id)}
    for (nm, nodes), style in [(x, s) for x in lists.items() for s in circ.STYLES]:
        label = f"{fam} of {n}, nodes listed in {nm}, {style}"
        ck.state(fam, n, nm, style)
        seen = quantiles(ck, fam, lambda: sc.ForwardMesh(list(nodes), PhaseStyle(style)), want, none, in_list_order(fam, base, want, nodes, range(k)), label)
        if seen is None:
            continue
        ck.outcome(np.round(seen[:, :k], 5).tobytes())
        if style == "top":
            # every draw moves one phase, and every phase has a draw of its own
            with drawing(0.3) as d:
                m0 = sc.ForwardMesh(list(nodes), PhaseStyle(style))
            p0 = np.hstack(m0.params)
            moved = []
            for j in range(d.count):
                with drawing(0.3, j, 0.8):
                    p = np.hstack(sc.ForwardMesh(list(nodes), PhaseStyle(style)).params)
                ck.trans()
                ck.state(fam, n, nm, "draw", j)
                moved.append(tuple(np.flatnonzero(np.abs(p - p0) > 1e-9)))
            ck.check(sorted(moved) == [(i,) for i in range(2 * k + m0.n)] if d.count == 2 * k + m0.n else len(set(sum(moved, ()))) == 2 * k + m0.n,
                     f"{label}: phases moved by each draw: {moved}", key="independent")
        ck.trace()
    # drawing again, and for the columns in their order
    for nm, make in (("column order", lambda: base.column_ordered), ("coupler errors", lambda: base.add_error_mean(error=0.07))):
        der = make()
        err = np.zeros((k, 2)) if nm == "column order" else np.full((k, 2), 0.07)
        back = {q.node_id: next(i for i, o in enumerate(sorted(base.nodes, key=lambda x: x.node_id)) if (o.top, o.bottom, o.column) == (q.top, q.bottom, q.column)) for q in der.nodes}
        w = [want[back[i]] for i in range(k)]
        ck.state(fam, n, nm)
        listed = in_list_order(fam, base, want, der.nodes, back)
        quantiles(ck, fam, lambda: sc.ForwardMesh(list(der.nodes)), w, err, listed, f"{fam} of {n}, {nm}")
        vals = []
        for u in GRID:
            with drawing(u) as d:
                vals.append(np.asarray(der.rand_theta()))
            ck.trans()
        if d.count:
            vals = np.sort(vals, axis=0)
            splitting(ck, fam, vals, w, err, listed, f"{fam} of {n}, {nm}: rand_theta", "rand_theta")
        ck.trace()
    ck.sample({"family": fam, "n": n})
