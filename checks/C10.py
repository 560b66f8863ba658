"""Algebra of couplers, nodes and matrix factorizations."""
import itertools
import numpy as np
from mc import refc

TOL = 1e-9
ASSUMPTIONS = ["double precision"]
ANG = [0.0, np.pi / 3, np.pi / 2, np.pi, 2.5, -1.2, 2 * np.pi]
ERRS = [0.0, 0.1, -0.2, 0.5]


def BOUNDS(tier):
    return ("all pairs of angles from {0, pi/3, pi/2, pi, 2.5, -1.2, 2 pi} x all pairs of errors from {0, 0.1, -0.2, 0.5} x losses {0, -0.7, -2} dB x "
            f"all rail pairs of up to {4 if tier == 'quick' else 6} rails; splitting ratios on a grid of {21 if tier == 'quick' else 201}; all 3-vectors over {{0, 1, i, -0.3+2i}}; "
            "cosine-sine decomposition of all unitaries reached by gate words; Dirichlet matrices of all vectors over {1, -2, i, 0.3-0.4i}")


def cases(tier, seed):
    out = [{"kind": "node", "n": n} for n in range(2, 5 if tier == "quick" else 7)]
    out += [{"kind": "ratio"}, {"kind": "nullify"}, {"kind": "dirichlet"}]
    b = {2: (3, 150), 3: (2, 200), 4: (2, 300), 5: (1, 60), 6: (1, 60)} if tier == "quick" else \
        {2: (6, 2000), 3: (3, 3000), 4: (3, 4000), 5: (2, 2000), 6: (2, 1000), 7: (1, 200), 8: (1, 200), 9: (1, 100)}
    out += [{"kind": "cs", "n": n, "depth": d, "limit": m} for n, (d, m) in b.items()]
    return out


def run(case, ck):
    from simphox.circuit.coupling import (CouplingNode, phase_matrix, coupling_matrix_s, coupling_matrix_phase,
                                          loss2insertion, direct_transmissivity, transmissivity_to_phase)
    kind = case["kind"]
    if kind == "node":
        n = case["n"]
        for (t, b) in itertools.permutations(range(n), 2):
            for el, er in itertools.product(ERRS, repeat=2):
                for lt, lp in itertools.product((0.0, -0.7, -2.0), repeat=2):
                    node = CouplingNode(n=n, top=t, bottom=b, bs_error=(el, er), loss=(lt, lp))
                    pairs = list(itertools.product(ANG, repeat=2)) if (t, b) == (0, 1) else [(0.9, 2.1), (np.pi, 0.0)]
                    for th, ph in pairs:
                        ck.state(n, t, b, el, er, lt, lp, th, ph)
                        want = refc.node(th, ph, el, er, lt, lp)
                        ck.trans(2)
                        ck.close(node.mzi_node_matrix(th, ph), refc.embed(want, n, t, b), f"node {t}-{b} of {n} theta {th} phi {ph} errors {el},{er} losses {lt},{lp}", TOL, key="node")
                        ck.close(node.mzi_node_matrix(th, ph, embed=False), want, "2x2 node matrix", TOL, key="node 2x2")
                        ck.trace(2)
                    ck.outcome(np.round(want, 5).tobytes())
                if t == 0 and b == 1:
                    cl, cr = np.pi / 4 + el, np.pi / 4 + er
                    ck.close(CouplingNode(bs_error=(el, er)).mzi_terms, [np.cos(cr) * np.cos(cl), np.cos(cr) * np.sin(cl), np.sin(cr) * np.cos(cl), np.sin(cr) * np.sin(cl)], "mzi terms", TOL, key="terms")
                    ck.trans()
            for e in ERRS:  # one error for both couplers
                a, b2 = CouplingNode(n=n, top=t, bottom=b, bs_error=e), CouplingNode(n=n, top=t, bottom=b, bs_error=(e, e))
                ck.close(a.mzi_node_matrix(0.7, 0.2), b2.mzi_node_matrix(0.7, 0.2), "scalar coupler error", TOL, key="scalar error")
                for r in (False, True):
                    ck.close(a.dc(r), refc.dc(e), f"coupler with error {e}", TOL, key="dc")
                ck.trans(4)
            for th, ph in itertools.product(ANG, repeat=2):
                node = CouplingNode(n=n, top=t, bottom=b)
                ck.trans(3)
                s = (1 - np.cos(th)) / 2
                ideal = np.array([[np.exp(1j * ph) * np.sqrt(1 - s), np.exp(1j * ph) * np.sqrt(s)], [np.sqrt(s), -np.sqrt(1 - s)]])
                ck.close(node.ideal_node(s, ph), refc.embed(ideal, n, t, b), f"ideal node s={s} phi={ph}", TOL, key="ideal node")
                ck.close(node.phase_matrix(th, ph), refc.embed(np.diag(np.exp([1j * th, 1j * ph])), n, t, b), "embedded phases", TOL, key="phase matrix")
                c, sn = np.cos(th / 2), np.sin(th / 2)
                ck.close(node.mmi_node_matrix(th, ph), refc.embed(np.array([[c, 1j * sn], [1j * sn, c]]) @ np.diag([np.exp(1j * ph), 1]), n, t, b), f"interferometer node {th} {ph}", TOL, key="mmi")
                ck.close(phase_matrix(th, ph), np.diag(np.exp([1j * th, 1j * ph])), "phase matrix", TOL, key="phases")
                ck.close(phase_matrix(th), np.diag([np.exp(1j * th), 1]), "phase matrix", TOL, key="phases")
                for e in ERRS:
                    m = coupling_matrix_phase(th, e)
                    ck.close(m.conj().T @ m, np.eye(2), f"coupling matrix theta {th} error {e} is not unitary", TOL, key="coupling unitary")
                    ck.close(m[0, 0], np.cos((th + e) / 2), "coupling matrix", TOL, key="coupling")
                ck.close(coupling_matrix_s(s) @ coupling_matrix_s(s), np.eye(2), f"coupling matrix s={s}", TOL, key="coupling s")
                ck.close(coupling_matrix_s(s)[0, 1] ** 2, s, f"cross ratio s={s}", TOL, key="coupling s")
                ck.trace()
        for db in (0.0, -1.0, -3.0, -20.0, 2.0):
            ck.close(loss2insertion(db) ** 2, 10 ** (db / 10), f"loss of {db} dB", TOL, key="loss")
        ck.sample({"n": n})
    elif kind == "ratio":
        k = 21 if ck.tier == "quick" else 201
        for el, er in itertools.product(ERRS, repeat=2):
            node = CouplingNode(bs_error=(el, er))
            lo, hi = np.sin(el - er) ** 2, np.cos(el + er) ** 2
            terms = np.array(node.mzi_terms)
            for s in np.linspace(0, 1, k):
                ck.state("ratio", el, er, s)
                th = transmissivity_to_phase(s, terms)
                u = node.mzi_node_matrix(th, 0.4)
                got = np.abs(u[0, 1]) ** 2
                want = min(max(s, lo), hi)
                ck.trans()
                ck.close(got, want, f"splitting ratio {s} with errors {el},{er}", 1e-7, key="ratio")
                ck.outcome(round(float(got), 4))
                ck.trace()
                if el == er == 0:
                    ck.close(transmissivity_to_phase(s), th, f"phase of ratio {s}", 1e-7, key="default terms")
            arr = np.linspace(0, 1, k)
            ck.close(transmissivity_to_phase(arr, terms), [transmissivity_to_phase(s, terms) for s in arr], "array of ratios", 1e-12, key="ratio array")
        for a, b in itertools.product([0, 1, 1j, -3, 0.2 + 0.1j], repeat=2):
            if a or b:
                ck.close(direct_transmissivity(np.array([a]), np.array([b])), [abs(a) ** 2 / (abs(a) ** 2 + abs(b) ** 2)], "power ratio", 1e-9, key="direct")
        ck.check(np.all(np.isfinite(direct_transmissivity(np.array([0j]), np.array([0j])))), "power ratio of dark ports", key="direct dark")
    elif kind == "nullify":
        for v in itertools.product([1, 1j, -0.3 + 2j, 0], repeat=3):
            v = np.array(v, complex)
            for idx in (0, 1):
                node = CouplingNode(n=3, top=idx, bottom=idx + 1)
                given = v.copy()
                w, mat, th, ph = node.nullify(given, idx)
                ck.state("nullify", v.tobytes(), idx)
                ck.trans()
                ck.check(np.array_equal(given, v), "nullify changed the vector", key="nullify input")
                ck.close(w[idx + 1], 0, f"{v.tolist()} nullified at {idx}", TOL, key="nullify")
                ck.close(mat, node.mzi_node_matrix(th, ph), "nullifying matrix and phases", TOL, key="nullify phases")
                ck.close(mat @ v, w, "nullified vector", TOL, key="nullified vector")
                ck.close(np.linalg.norm(w), np.linalg.norm(v), "power of the nullified vector", TOL, key="nullify power")
                ck.trace()
                ck.outcome(round(float(th), 5), round(float(ph), 5))
    elif kind == "dirichlet":
        from simphox.circuit.matrix import dirichlet_matrix
        for n in (2, 3, 4):
            for v in itertools.product([1, -2, 1j, 0.3 - 0.4j], repeat=n):
                v = np.array(v, complex)
                ck.state("dirichlet", v.tobytes())
                u = dirichlet_matrix(v)
                ck.trans()
                ck.close(u.conj().T @ u, np.eye(n), f"Dirichlet matrix of {v.tolist()} is not unitary", TOL, key="dirichlet unitary")
                w = u.T @ v
                want = np.zeros(n, complex)
                want[-1] = np.linalg.norm(v)
                ck.close(w, want, f"Dirichlet matrix of {v.tolist()} does not collect the vector in the last port", TOL, key="dirichlet")
                e = dirichlet_matrix(v, n + 2)
                ck.close(e, np.block([[u, np.zeros((n, 2))], [np.zeros((2, n)), np.eye(2)]]), "embedded Dirichlet matrix", TOL, key="dirichlet embed")
                ck.trace()
                ck.outcome(np.round(u, 4).tobytes())
    else:
        from simphox.circuit.matrix import cs, csinv
        n = case["n"]
        mats = list(refc.unitary_bfs(n, case["depth"], case["limit"])) + [("dft", refc.dft(n)), ("haar", refc.haar(n, ck.seed))]
        for w, u in mats:
            ck.state("cs", n, refc.canon(u))
            l0, l1, r0, r1, th = cs(u.copy())
            ck.trans(2)
            m = n // 2
            for nm, q, k in (("l0", l0, m), ("l1", l1, n - m), ("r0", r0, m), ("r1", r1, n - m)):
                ck.close(q.conj().T @ q, np.eye(k), f"{nm} of {n}x{n} {w} is not unitary", TOL, key="cs unitary")
            ck.check(np.all((th > -1e-9) & (th < np.pi / 2 + 1e-9)), f"angles {th} of {n}x{n} {w}", key="cs angles")
            ck.close(csinv(l0, l1, r0, r1, th), u, f"recomposed {n}x{n} {w}", 1e-7, key="cs")
            ck.trace()
            ck.outcome(np.round(np.sort(th), 5).tobytes())
        ck.sample({"n": n, "word": w})
