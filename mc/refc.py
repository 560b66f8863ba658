"""Reference model of feedforward meshes: explicit products of embedded 2x2 matrices (complex128).

A circuit is a list of nodes, each a dict(top, bottom, col, id), plus theta/phi per node id, gamma per rail,
splitting errors (left, right) and losses (dB at the theta and phi phase shifters) per node id, and a phase style.
"""
import itertools
import numpy as np


def dc(e):
    c, s = np.cos(np.pi / 4 + e), np.sin(np.pi / 4 + e)
    return np.array([[c, 1j * s], [1j * s, c]])


def arm(phase, db=0.0):
    return np.exp(1j * phase) * 10 ** (db / 20)


def node(theta, phi, el=0.0, er=0.0, lt=0.0, lp=0.0, style="top"):
    """2x2 transfer matrix (outputs x inputs) of a node: phi, coupler, theta, coupler."""
    a, b = arm(theta, lt), arm(phi, lp)
    g = 10 ** (lp / 20)
    if style == "top":
        th, ph = np.diag([a, 1]), np.diag([b, 1])
    elif style == "bottom":
        th, ph = np.diag([1, a]), np.diag([1, b])
    elif style == "differential":  # theta: +-theta/2 in the arms; phi: -+phi/2 at the outputs of the model's rows
        th, ph = np.diag([a, 1]) * np.exp(-1j * theta / 2), g * np.diag([np.exp(-1j * phi / 2), np.exp(1j * phi / 2)])
    elif style == "symmetric":
        th, ph = np.diag([a, 1]) * np.exp(-1j * theta / 2), g * np.exp(1j * phi) * np.eye(2)
    else:
        raise ValueError(style)
    return dc(er) @ th @ dc(el) @ ph


def embed(m, n, i, j):
    out = np.eye(n, dtype=complex)
    out[np.ix_([i, j], [i, j])] = m
    return out


def circuit(n, nodes, theta, phi, gamma, style="top", errors=None, losses=None):
    """Transfer matrix. nodes: iterable of (top, bottom, column, id)."""
    u = np.eye(n, dtype=complex)
    for t, b, c, i in sorted(nodes, key=lambda q: q[2]):
        e = (0, 0) if errors is None else errors[i]
        l = (0, 0) if losses is None else losses[i]
        u = embed(node(theta[i], phi[i], e[0], e[1], l[0], l[1], style), n, t, b) @ u
    return np.diag(np.exp(1j * np.asarray(gamma))) @ u


def spec(mesh):
    """Nodes of a mesh of the code under test, as the reference model needs them."""
    return [(int(t), int(b), int(c), int(i)) for t, b, c, i in
            zip(mesh.top, mesh.bottom, mesh.column_by_node, mesh.node_idxs)]


def mesh_ref(mesh, params=None):
    th, ph, ga = mesh.params if params is None else params
    ids = sorted(mesh.node_idxs)
    pos = {i: k for k, i in enumerate(mesh.node_idxs)}
    err = {i: tuple(np.atleast_1d(mesh.nodes[pos[i]].bs_error)) for i in ids}
    los = {i: tuple(np.atleast_1d(mesh.nodes[pos[i]].loss)) for i in ids}
    return circuit(mesh.n, spec(mesh), np.asarray(th), np.asarray(ph), np.asarray(ga),
                   str(getattr(mesh.phase_style, "value", mesh.phase_style)), err, los)


def generic(seed, *shape, lo=0.0, hi=1.0):
    r = np.random.RandomState(seed)
    return lo + (hi - lo) * r.rand(*shape)


# ---------------------------------------------------------------- unitaries: words over a gate alphabet
SQ = np.sqrt(0.5)
H2 = np.array([[SQ, SQ], [SQ, -SQ]], complex)
X2 = np.array([[0, 1], [1, 0]], complex)
Y2 = np.array([[0.6, 0.8j], [0.8j, 0.6]], complex)
G2 = np.array([[np.cos(0.3), np.sin(0.3)], [-np.sin(0.3), np.cos(0.3)]]) @ np.diag(np.exp([0.7j, -1.1j]))


def gates(n, adjacent=False):
    out = []
    pairs = [(i, i + 1) for i in range(n - 1)] if adjacent else list(itertools.combinations(range(n), 2))
    for i, j in pairs:
        out += [(f"X{i}{j}", embed(X2, n, i, j)), (f"H{i}{j}", embed(H2, n, i, j)), (f"G{i}{j}", embed(G2, n, i, j))]
    for i in range(n):
        for nm, ph in (("Z", -1), ("S", 1j)):
            d = np.eye(n, dtype=complex)
            d[i, i] = ph
            out.append((f"{nm}{i}", d))
    d = np.eye(n, dtype=complex)
    d[0, 0] = np.exp(0.83j)
    out.append(("P0", d))
    return out


def unitary_bfs(n, depth, limit=None):
    """All distinct unitaries reachable by words of at most `depth` gates (breadth-first, deduplicated)."""
    gs = gates(n)
    start = np.eye(n, dtype=complex)
    seen = {canon(start)}
    level = [("I", start)]
    yield "I", start
    count, transitions = 1, 0
    for _ in range(depth):
        nxt = []
        for w, u in level:
            for name, g in gs:
                v = g @ u
                k = canon(v)
                if k not in seen:
                    seen.add(k)
                    nxt.append((w + "." + name, v))
                    count += 1
                    yield w + "." + name, v
                    if limit and count >= limit:
                        return
        level = nxt


def canon(u):
    r = np.round(u * 1e6)
    return (r + (0 + 0j)).astype(np.complex64).tobytes() if False else (np.round(u.real * 1e6).astype(np.int64).tobytes()
                                                                       + np.round(u.imag * 1e6).astype(np.int64).tobytes())


def dft(n):
    k = np.arange(n)
    return np.exp(2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)


def haar(n, seed):
    r = np.random.RandomState(seed)
    z = r.randn(n, n) + 1j * r.randn(n, n)
    q, rr = np.linalg.qr(z)
    return q * (np.diag(rr) / np.abs(np.diag(rr)))
