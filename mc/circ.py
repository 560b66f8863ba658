"""Enumerations of feedforward circuits (imports the code under test lazily)."""
import itertools
import numpy as np
from mc import refc

STYLES = ("top", "bottom", "differential", "symmetric")
EXPLICIT = ("top", "bottom")
# splitting error (rad) and loss (dB) per node as a function of the node id; losses are attenuations (negative dB)
ERR = {
    "ideal": (lambda i: (0.0, 0.0), lambda i: (0.0, 0.0)),
    "equal": (lambda i: (0.07 * (i + 1),) * 2, lambda i: (0.0, 0.0)),
    "unequal": (lambda i: (0.11 * (1 + i % 3), -0.06 * (1 + i % 2)), lambda i: (0.0, 0.0)),
    "lossy": (lambda i: (0.0, 0.0), lambda i: (-0.3 * (1 + i), -0.17 * (1 + 2 * i))),
    "both": (lambda i: (-0.09 * (1 + i), 0.05 + 0.02 * i), lambda i: (-0.4 - 0.1 * i, -1.1 + 0.2 * (i % 3))),
}


def asap(word, n):
    """Columns of a word of (top, bottom) nodes, each as early as possible."""
    ready, cols = [0] * n, []
    for t, b in word:
        c = max(ready[t], ready[b])
        cols.append(c)
        ready[t] = ready[b] = c + 1
    return cols


def words(n, length, ordered=True):
    pairs = list(itertools.permutations(range(n), 2)) if not ordered else list(itertools.combinations(range(n), 2))
    for k in range(1, length + 1):
        yield from itertools.product(pairs, repeat=k)


def parallel(step=1):
    """Circuits with nodes side by side in a column: (rails, word, ids in light order, listing order)."""
    out = []
    for k in (2, 3):
        for w in itertools.product(itertools.combinations(range(4), 2), repeat=k):
            c = asap(w, 4)
            if len(set(c)) < k:
                out += [(4, w, ids, lst) for ids in itertools.permutations(range(k)) for lst in itertools.permutations(range(k))]
    out = out[::step]
    six = ((0, 1), (2, 3), (4, 5), (1, 2), (3, 4))
    out += [(6, six, tuple(ids), tuple(lst)) for ids in ((4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 2, 0, 4, 3)) for lst in ((0, 1, 2, 3, 4), (2, 4, 0, 3, 1))]
    return out


def custom(word, n, style="top", ids=None, cols=None, err="ideal", listing=None):
    """A circuit given by a word of nodes. ids: node ids in light order; listing: order in which nodes are listed."""
    from simphox.circuit import CouplingNode, ForwardMesh, PhaseStyle
    ids = list(range(len(word))) if ids is None else ids
    cols = asap(word, n) if cols is None else cols
    fe, fl = ERR[err]
    nodes = [CouplingNode(node_id=int(i), n=n, top=int(t), bottom=int(b), column=int(c), bs_error=fe(i), loss=fl(i))
             for (t, b), i, c in zip(word, ids, cols)]
    if listing is not None:
        nodes = [nodes[j] for j in listing]
    return ForwardMesh(nodes, PhaseStyle(style))


def family(name, n, style="top", err="ideal", seed=0):
    """A named architecture with generic phases."""
    import simphox.circuit as sc
    from simphox.circuit import PhaseStyle
    from simphox.circuit.vector import tree, butterfly
    style = PhaseStyle(style)
    if name == "tree":
        m = tree(n, balanced=True, phase_style=style)
    elif name == "chain":
        m = tree(n, balanced=False, phase_style=style)
    elif name == "tree_embedded":
        m = tree(n - 1, n_rails=n, balanced=True, phase_style=style)
    elif name == "butterfly_embedded":
        m = sc.ForwardMesh(butterfly(n - 1, n_rails=n).nodes, style)
    elif name == "butterfly":
        m = sc.ForwardMesh(butterfly(n).nodes, style)
    elif name == "rectangular":
        m = sc.rectangular(refc.haar(n, 17 + n))
        m = sc.ForwardMesh(m.nodes, style)
    elif name == "triangular":
        m = sc.ForwardMesh(sc.triangular(refc.haar(n, 17 + n)).nodes, style)
    elif name == "tree_cascade":
        m = sc.ForwardMesh(sc.tree_cascade(refc.haar(n, 17 + n)).nodes, style)
    else:
        raise ValueError(name)
    if err != "ideal":
        fe, fl = ERR[err]
        for node in m.nodes:
            node.bs_error, node.loss = fe(node.node_id), fl(node.node_id)
        m = sc.ForwardMesh(m.nodes, style)
    m.params = generic_params(m, seed)
    return m


def generic_params(m, seed=0):
    k, n = len(m.nodes), m.n
    return (refc.generic(1000 + seed, k, lo=0.1, hi=3.0), refc.generic(2000 + seed, k, lo=0.1, hi=6.1),
            refc.generic(3000 + seed, n, lo=0.1, hi=6.1))


FAMILIES = [("tree", 2), ("tree", 3), ("tree", 4), ("tree", 5), ("tree", 6), ("chain", 3), ("chain", 4), ("chain", 5),
            ("tree_embedded", 4), ("tree_embedded", 6), ("butterfly", 2), ("butterfly", 4), ("butterfly", 5),
            ("butterfly", 8), ("butterfly_embedded", 5), ("rectangular", 2), ("rectangular", 3), ("rectangular", 4), ("rectangular", 5),
            ("triangular", 2), ("triangular", 3), ("triangular", 4), ("tree_cascade", 2), ("tree_cascade", 3), ("tree_cascade", 4)]
DEEP_FAMILIES = FAMILIES + [("tree", 7), ("tree", 8), ("tree", 9), ("chain", 6), ("chain", 8), ("rectangular", 6),
                            ("rectangular", 7), ("triangular", 5), ("triangular", 6), ("tree_cascade", 5),
                            ("tree_cascade", 6), ("butterfly", 3), ("butterfly", 16)]

# a few larger ones for every run, each in one style
LARGE = [("tree", 9, "top"), ("tree", 16, "differential"), ("chain", 9, "bottom"), ("butterfly", 16, "top"), ("rectangular", 8, "bottom"),
         ("rectangular", 9, "differential"), ("triangular", 7, "top"), ("tree_cascade", 7, "bottom"), ("tree_embedded", 9, "top")]


def err_arrays(m):
    """Errors and losses by node id, as documented per node."""
    k = len(m.nodes)
    e, l = np.zeros((k, 2)), np.zeros((k, 2))
    for node in m.nodes:
        e[node.node_id], l[node.node_id] = node.bs_error, node.loss
    return e, l
