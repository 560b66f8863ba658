"""Architectures generated with coupler-error and loss statistics carry them and compensate the errors."""
import contextlib
import itertools
import numpy as np
from mc import refc

ASSUMPTIONS = ["the standard-normal draws behind the statistics are replaced by words over a finite alphabet (np.random.randn, standard_normal, normal); "
               "equality with mean + std * draw is only required of draws taken from there",
               "exact compensation is required when every node's ideal splitting lies inside what its imperfect couplers reach",
               "reference product in double precision (1e-6); library matrix 5e-5"]
STYLES = ("top", "bottom", "differential")


def BOUNDS(tier):
    return ("all words over {-1, 0, 1} as the draws of the first three nodes (cyclic beyond) x error (mean, std) {(0,.04), (.05,.03), (-.06,0)} x loss (mean, std) {(0,0), (-.4,0), (-.3,.2)} "
            "x vectors and unitaries of 2 to " + ("4" if tier == "quick" else "6") + " rails x generators (vector unit, balanced/unbalanced tree, triangular, tree cascade) x styles")


class Draws:
    """Stand-in for the normal generators: entry (i, j) of a draw of shape (nodes, 2) is word[(i + 2 j + 5 call) % len]."""

    def __init__(self, word):
        self.word, self.calls = word, []

    def randn(self, *shape):
        k = len(self.calls)
        if not shape:
            a = float(self.word[5 * k % len(self.word)])
        else:
            idx = np.indices(shape)
            a = np.asarray(self.word, float)[(sum((2 * d + 1 if d else 1) * q for d, q in enumerate(idx)) + 5 * k) % len(self.word)]
        self.calls.append(a)
        return a

    def standard_normal(self, size=None):
        return self.randn() if size is None else self.randn(*np.atleast_1d(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * self.standard_normal(size)


@contextlib.contextmanager
def drawing(word):
    d = Draws(word)
    keep = np.random.randn, np.random.standard_normal, np.random.normal
    np.random.randn, np.random.standard_normal, np.random.normal = d.randn, d.standard_normal, d.normal
    try:
        yield d
    finally:
        np.random.randn, np.random.standard_normal, np.random.normal = keep


WORDS = [w for w in itertools.product((-1, 0, 1), repeat=3)]
STATS = [((0.0, 0.04), (0.0, 0.0)), ((0.05, 0.03), (0.0, 0.0)), ((-0.06, 0.0), (0.0, 0.0)), ((0.0, 0.0), (-0.4, 0.0)),
         ((0.0, 0.0), (-0.3, 0.2)), ((0.05, 0.03), (-0.3, 0.2)), ((0.0, 0.0), (0.0, 0.0))]


def cases(tier, seed):
    top = 4 if tier == "quick" else 6
    return [{"kind": k, "n": n, "stat": s} for k in ("vector", "unitary") for n in range(2, top + 1) for s in range(len(STATS))] + \
           [{"kind": k, "n": n, "stat": s, "words": 7} for k, n in (("vector", 9), ("unitary", 8)) for s in (0, 2, 5)] + \
           [{"kind": "add", "n": n} for n in range(2, top + 1)]


def pernode(mesh):
    """Recorded (left, right) errors and (theta, phi) losses per node."""
    ids = list(mesh.node_idxs)
    e = np.array([np.broadcast_to(np.asarray(q.bs_error, float), 2) for q in mesh.nodes])
    l = np.array([np.broadcast_to(np.asarray(q.loss, float), 2) for q in mesh.nodes])
    return e, l, ids


def records(ck, mesh, stat, word, d, label):
    (em, es), (lm, ls) = stat
    e, l, _ = pernode(mesh)
    ck.close(e[:, 0], e[:, 1], f"{label}: left and right coupler errors", 1e-12, key="equal errors")
    if es == 0:
        ck.close(e, np.full(e.shape, em), f"{label}: recorded coupler errors", 1e-12, key="error mean")
    if ls == 0:
        ck.close(l, np.full(l.shape, lm), f"{label}: recorded losses", 1e-12, key="loss mean")
    if d.calls:
        al = np.array(sorted(set(word)), float)
        if es:
            q = (e - em) / es
            ck.check(np.abs(q[..., None] - al).min(-1).max() < 1e-9, f"{label}: coupler errors {e.tolist()} are not mean + std * draw", key="error draw")
            if len(set(word)) == 3 and len(e) >= 3:
                ck.check(len(set(np.round(q[:, 0], 6))) > 1, f"{label}: all nodes share one draw", key="independent draws")
        if ls:
            q = (l - lm) / ls
            ck.check(np.abs(q[..., None] - al).min(-1).max() < 1e-9, f"{label}: losses {l.tolist()} are not mean + std * draw", key="loss draw")
    ck.close(np.asarray(mesh.bs_errors, float).reshape(e.shape), e, f"{label}: bs_errors of the mesh", 1e-12, key="mesh errors")
    ck.close(np.asarray(mesh.losses, float).reshape(l.shape), l, f"{label}: losses of the mesh", 1e-12, key="mesh losses")
    return e, l


def run(case, ck):
    import simphox.circuit as sc
    from simphox.circuit import PhaseStyle
    from simphox.circuit.vector import vector_unit
    n = case["n"]
    if case["kind"] == "add":
        return add(case, ck)
    stat = STATS[case["stat"]]
    (em, es), (lm, ls) = stat
    lossless = lm == 0 and ls == 0
    if case["kind"] == "vector":
        vs = [refc.generic(300 + k + ck.seed, n, lo=0.5, hi=1.2) * np.exp(1j * refc.generic(340 + k, n, hi=6.2)) for k in range(2)]
        vs.append(np.ones(n))
        for k, v in enumerate(vs):
            for word in WORDS[::case.get("words", 1)]:
                for style in STYLES:
                    for bal in (True, False):
                        ck.state("v", n, k, word, style, bal)
                        label = f"vector {k} of length {n}, statistics {stat}, draws {word}, {style}, balanced={bal}"
                        with drawing(word) as d:
                            mesh, w = vector_unit(v, balanced=bal, phase_style=PhaseStyle(style), bs_error_mean_std=stat[0], loss_mean_std=stat[1])
                        ck.trans()
                        records(ck, mesh, stat, word, d, label + " (vector unit)")
                        u = refc.mesh_ref(mesh)
                        ck.close(mesh.matrix(), u, f"{label}: matrix of the vector unit", 5e-5, key="vector matrix")
                        u0 = np.diag(np.exp(-1j * mesh.gammas)) @ u
                        ck.close(np.asarray(w).ravel(), u0 @ v, f"{label}: returned fields", 1e-6, key="returned")
                        if lossless:
                            want = np.zeros(n, complex)
                            want[-1] = np.linalg.norm(v)
                            ck.close(u @ v, want, f"{label}: vector through its unit", 1e-6, key="vector output")
                        with drawing(word) as d:
                            t = (sc.balanced_tree if bal else sc.unbalanced_tree)(v, phase_style=PhaseStyle(style),
                                                                                  bs_error_mean_std=stat[0], loss_mean_std=stat[1])
                        ck.trans()
                        records(ck, t, stat, word, d, label + " (tree)")
                        ck.check(t.n == n and t.num_nodes == n - 1, f"{label}: tree has {t.num_nodes} nodes", key="tree nodes")
                        if lossless:
                            ck.close(refc.mesh_ref(t)[-1], v / np.linalg.norm(v), f"{label}: last row of the analyzing tree", 1e-6, key="tree row")
                        if word[0] == word[1] == word[2] and es == 0 and ls == 0:
                            back = (sc.balanced_tree if bal else sc.unbalanced_tree)(v, PhaseStyle(style), stat[0], stat[1])
                            ck.close(np.concatenate(back.params[:2]), np.concatenate(t.params[:2]), f"{label}: positional arguments of the tree", 1e-12, key="positional")
                        ck.trace()
            ck.sample({"vector": k, "n": n})
    else:
        us = [("haar %d" % k, refc.haar(n, 500 + k + ck.seed)) for k in range(3)] + [("dft", refc.dft(n))]
        for name, u in us:
            for arch in ("triangular", "tree_cascade"):
                for style in STYLES:
                    gen = getattr(sc, arch)
                    ideal = gen(u, phase_style=PhaseStyle(style))
                    th = np.abs(np.mod(np.asarray(ideal.thetas) + np.pi, 2 * np.pi) - np.pi)
                    for word in WORDS[::case.get("words", 1)]:
                        ck.state("u", n, name, arch, style, word)
                        label = f"{n}x{n} {name}, statistics {stat}, draws {word}, {arch} {style}"
                        with drawing(word) as d:
                            m = gen(u, phase_style=PhaseStyle(style), error_mean_std=stat[0], loss_mean_std=stat[1])
                        ck.trans()
                        e, l = records(ck, m, stat, word, d, label)
                        want = refc.mesh_ref(m)
                        ck.close(m.matrix(), want, f"{label}: matrix", 5e-5, key="cascade matrix")
                        reach = np.minimum(th, np.pi - th).min() > 2 * np.abs(e).sum(1).max() + 0.02
                        if lossless and reach:
                            ck.close(want, u, f"{label}: programmed matrix", 1e-6, key="compensation")
                            ck.outcome(n, np.round(m.thetas, 3).tobytes())
                        if not lossless:
                            s = np.linalg.svd(want, compute_uv=False)
                            ck.check((s.max() <= 1 + 1e-9) or np.max(l) > 0, f"{label}: lossy circuit amplifies ({s.max()})", key="passive")
                        ck.trace()
            ck.sample({"unitary": name, "n": n})


def add(case, ck):
    """add_error_mean and add_error_variance on programmed meshes: new meshes, old ones untouched."""
    import simphox.circuit as sc
    n = case["n"]
    u = refc.haar(n, 77)
    for arch in ("rectangular", "triangular", "tree_cascade"):
        for word in WORDS[::case.get("words", 1)]:
            for err, loss, right in itertools.product((0.0, 0.07), (0.0, -0.5), (None, -0.03)):
                base = getattr(sc, arch)(u)
                before = [np.array(p) for p in base.params]
                a = base.add_error_mean(err, loss, right)
                e, l, _ = pernode(a)
                label = f"{arch}({n}) add_error_mean({err}, {loss}, {right})"
                ck.state(arch, n, word, err, loss, right)
                ck.trans()
                ck.close(e[:, 0], np.full(len(e), err), label + ": left errors", 1e-12, key="add left")
                ck.close(e[:, 1], np.full(len(e), err if right is None else right), label + ": right errors", 1e-12, key="add right")
                ck.close(l, np.full(l.shape, loss), label + ": losses", 1e-12, key="add loss")
                for eq in (True, False):
                    with drawing(word) as d:
                        b = a.add_error_variance(0.05, 0.3, equal_splitter_error=eq)
                    ck.trans()
                    e2, l2, _ = pernode(b)
                    lab = f"{label}.add_error_variance(0.05, 0.3, {eq}), draws {word}"
                    if eq:
                        ck.close(e2[:, 1] - e[:, 1], e2[:, 0] - e[:, 0], lab + ": equal coupler error", 1e-12, key="var equal")
                    if d.calls:
                        al = np.array(sorted(set(word)), float)
                        for got, std, nm in ((e2 - e, 0.05, "coupler errors"), (l2 - l, 0.3, "losses")):
                            ck.check(np.abs((got / std)[..., None] - al).min(-1).max() < 1e-9, f"{lab}: {nm} are not old + std * draw", key="var " + nm)
                    e3, l3, _ = pernode(a)
                    ck.check(np.array_equal(e3, e) and np.array_equal(l3, l), f"{lab} changed the mesh it was called on", key="var in place")
                    for p, q in zip(before, b.params):
                        ck.check(np.array_equal(p, q), f"{lab} lost the parameters", key="var params")
                    ck.close(b.matrix(), refc.mesh_ref(b), f"{lab}: matrix", 5e-5, key="var matrix")
                e0, l0, _ = pernode(base)
                ck.check(not e0.any() and not l0.any(), f"{label} changed the mesh it was called on", key="add in place")
                ck.close(a.matrix(), refc.mesh_ref(a), f"{label}: matrix", 5e-5, key="add matrix")
                ck.trace()
        ck.sample({"arch": arch, "n": n})
