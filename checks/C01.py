"""Programming a unitary (or, by SVD, any matrix) into an architecture reproduces it exactly."""
import itertools
import numpy as np
from mc import refc

TOL = 1e-6
ASSUMPTIONS = ["matrices with entries of magnitude about one; reference product of 2x2 matrices in double precision (1e-6), "
               "the library's own transfer matrix to 3e-5 (single precision default input)"]
ARCH = [("rectangular", "top"), ("triangular", "top"), ("triangular", "bottom"), ("triangular", "differential"),
        ("tree_cascade", "top"), ("tree_cascade", "bottom"), ("tree_cascade", "differential")]
QUICK = {2: (4, 150), 3: (2, 200), 4: (2, 120), 5: (1, 40), 6: (1, 30)}
DEEP = {2: (6, 1500), 3: (3, 3000), 4: (3, 2500), 5: (2, 1500), 6: (2, 800), 7: (1, 100), 8: (1, 100)}


LARGE = (7, 8, 9, 12, 16, 17)


def forms(u):
    """The same matrix as it can be stored."""
    out = [("fortran order", np.asfortranarray(u)), ("part of an array", np.kron(u, np.ones((2, 3)))[1::2, 2::3]), ("single precision", u.astype(np.complex64))]
    ro = u.copy()
    ro.setflags(write=False)
    out.append(("read-only", ro))
    return out + ([("real", u.real.copy())] if np.abs(u.imag).max() == 0 else [])


def BOUNDS(tier):
    b = QUICK if tier == "quick" else DEEP
    return ("breadth-first search over words of two-rail gates (swap, Hadamard, generic) and phase gates: " +
            ", ".join(f"n={n}: depth<={d}, <={m} distinct unitaries" for n, (d, m) in b.items()) +
            "; all permutation, real, integer-typed, monomial, DFT and block matrices; larger ones (7 to 17, thorough 33 rails) and every way of storing them; SVD of all 2x2 matrices over {0,1,-1,i,2} and rectangular ones")


def cases(tier, seed):
    b = QUICK if tier == "quick" else DEEP
    out = []
    for n, (d, m) in b.items():
        parts = max(1, min(m // 30, 40))
        for p in range(parts):
            out.append({"kind": "words", "n": n, "depth": d, "limit": m, "part": p, "parts": parts})
    for n in range(2, 6 if tier == "quick" else 7):
        out.append({"kind": "special", "n": n})
    for n in LARGE if tier == "quick" else LARGE + (20, 24, 33):
        out.append({"kind": "large", "n": n})
    for p in range(5):
        out.append({"kind": "svd", "part": p, "parts": 5})
    return out


def program(ck, arch, style, u, label):
    import simphox.circuit as sc
    from simphox.circuit import PhaseStyle
    given = u.copy(order="K") if u.flags.writeable else u
    m = sc.rectangular(given) if arch == "rectangular" else getattr(sc, arch)(given, phase_style=PhaseStyle(style))
    ck.trans()
    n = u.shape[0]
    ck.check(np.array_equal(given, u), f"{arch} changed the matrix it was given ({label})", key="input changed")
    ck.check(m.n == n and m.num_nodes == n * (n - 1) // 2, f"{arch}({n}) has {m.num_nodes} nodes", key="node count")
    ck.close(refc.mesh_ref(m), u, f"{arch} {style} programmed with {label}", 2e-5 if u.dtype == np.complex64 else TOL, key=f"{arch} {style}")
    ck.close(m.matrix(), u, f"transfer matrix of {arch} {style} programmed with {label}", 3e-5, key=f"{arch} {style} matrix")
    for nm, p in zip(("theta", "phi", "gamma"), m.params):
        ck.check(np.all(np.isfinite(p)), f"{nm} of {arch} programmed with {label} is not finite", key="finite")
    ck.trace()
    return m


def run(case, ck):
    if case["kind"] == "words":
        for i, (w, u) in enumerate(refc.unitary_bfs(case["n"], case["depth"], case["limit"])):
            if i % case["parts"] != case["part"]:
                continue
            ck.state(case["n"], refc.canon(u))
            for arch, style in ARCH:
                m = program(ck, arch, style, u, f"{case['n']}x{case['n']} {w}")
            ck.outcome(np.round(m.thetas, 4).tobytes())
            ck.sample({"n": case["n"], "word": w})
    elif case["kind"] == "special":
        n = case["n"]
        mats = [("dft", refc.dft(n)), ("haar", refc.haar(n, 100 + ck.seed)), ("minus identity", -np.eye(n, dtype=complex)),
                ("reflection", np.eye(n) - 2 * np.ones((n, n)) / n), ("real orthogonal", np.linalg.qr(refc.generic(5, n, n))[0]),
                ("exchange", np.fliplr(np.eye(n)) + 0j), ("i times exchange", 1j * np.fliplr(np.eye(n)))]
        for p in itertools.islice(itertools.permutations(range(n)), 0, None, 1 if n < 5 else 7):
            mats.append((f"integer permutation {p}", np.eye(n, dtype=int)[list(p)]))
            mats.append((f"monomial {p}", np.diag(np.exp(1j * (np.arange(n) + ck.seed)))[list(p)]))
        for k in range(1, n):
            b = np.zeros((n, n), complex)
            b[:k, :k], b[k:, k:] = refc.haar(k, 3), refc.haar(n - k, 4)
            mats.append((f"blocks {k}+{n - k}", b))
            mats.append((f"antiblocks {k}+{n - k}", np.roll(b, k, axis=0)))
        eps = refc.embed(np.array([[np.cos(1e-9), 1j * np.sin(1e-9)], [1j * np.sin(1e-9), np.cos(1e-9)]]), n, 0, n - 1)
        mats.append(("almost identity", eps))
        mats.append(("almost dft", eps @ refc.dft(n)))
        for name, u in mats:
            ck.state(n, name)
            for arch, style in ARCH:
                program(ck, arch, style, u, f"{n}x{n} {name}")
        ck.sample({"n": n, "matrix": mats[0][0]})
    elif case["kind"] == "large":
        n = case["n"]
        rs = np.random.RandomState(n)
        b = np.eye(n, dtype=complex)
        b[: n // 2, : n // 2] = refc.haar(n // 2, 5)
        mats = [("haar", refc.haar(n, 200 + ck.seed)), ("dft", refc.dft(n)), ("identity", np.eye(n) + 0j), ("exchange", np.fliplr(np.eye(n)) + 0j),
                ("permutation", np.eye(n)[rs.permutation(n)] + 0j), ("block", b), ("reflection", np.eye(n) - 2 * np.ones((n, n)) / n + 0j)]
        for name, u in mats:
            ck.state(n, name)
            for arch, style in ARCH:
                program(ck, arch, style, u, f"{n}x{n} {name}")
            if n < 10:
                for form, v in forms(u):
                    for arch, style in ARCH:
                        program(ck, arch, style, v, f"{n}x{n} {name}, {form}")
    else:
        import simphox.circuit as sc
        al = [0, 1, -1, 1j, 2]
        mats = [np.array(q, complex).reshape(2, 2) for q in itertools.product(al, repeat=4)]
        mats += [np.array(q, complex).reshape(s) for s in ((2, 3), (3, 2)) for q in itertools.islice(
            itertools.product(al, repeat=6), 3, None, 997)]
        mats += [refc.generic(k, 4, 4) + 1j * refc.generic(k + 50, 4, 4) for k in range(3)] + [np.ones((3, 3)), np.outer([1, 2j, 0], [1, 1, 1])]
        for i, a in enumerate(mats):
            if i % case["parts"] != case["part"]:
                continue
            ck.state("svd", a.shape, a.tobytes())
            given = a.copy()
            l, d, r = sc.psvd(given)
            ck.trans()
            dm = np.zeros(a.shape)
            np.fill_diagonal(dm, d)
            ck.close(refc.mesh_ref(l) @ dm @ refc.mesh_ref(r), a, f"SVD circuit of {a.tolist()}", TOL, key="svd")
            ck.close(l.matrix() @ dm @ r.matrix(), a, f"SVD circuit matrices of {a.tolist()}", 5e-5, key="svd matrix")
            ck.check(np.array_equal(given, a), "psvd changed its input", key="svd input")
            ck.trace()
            ck.outcome(np.round(np.sort(d), 5).tobytes())
