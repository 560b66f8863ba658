"""The interval eigensolver finds every eigenvalue in the interval, or says that it cannot."""
import itertools
import numpy as np

TOL = 1e-8
ASSUMPTIONS = ["Hermitian matrices (real: symmetric) with a stored diagonal; interval ends at least 0.05 away from every eigenvalue", "single precision: problems of up to 8 rows, number and values of the eigenvalues (to 1e-2) only"]
OFF = (0, 1, -0.5, 1j, 0.5 - 1j)
ROFF = (0, 1, -0.5)
DIAG = (-1, 0.5, 2)
DTYPES = ("complex128", "float64", "complex64", "float32")


def BOUNDS(tier):
    return ("all Hermitian 2x2 over small alphabets, 3x3 (stride), block and banded matrices of up to 24 rows x four precisions x every interval between eigenvalues x room for eigenvectors; "
            f"every history of <= {2 if tier == 'quick' else 3} calls out of 9 (valid, rejected, failing) before a call")


def cases(tier, seed):
    out = [{"kind": "small", "n": 2, "dtype": t} for t in DTYPES]
    parts = 2 if tier == "quick" else 6
    out += [{"kind": "small", "n": 3, "dtype": t, "part": p, "parts": parts, "step": 9 if tier == "quick" else 1} for t in DTYPES for p in range(parts)]
    out += [{"kind": "large", "dtype": t, "n": n} for t in DTYPES for n in ((8,) if t in DTYPES[2:] else (8, 15, 24) if tier == "quick" else range(5, 41, 5))]
    out += [{"kind": "history", "first": f, "depth": 2 if tier == "quick" else 3} for f in range(9)]
    out += [{"kind": "formats"}]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def sparse(a, dtype):
    import scipy.sparse as sp
    m = sp.coo_matrix(np.ones_like(a) * (a != 0) + np.eye(len(a)))  # the diagonal is stored even where it vanishes
    m = m.tocsr()
    m.data = np.array([a[i, j] for i, j in zip(*sp.coo_matrix(m).coords)] if hasattr(sp.coo_matrix(m), "coords") else [a[i, j] for i, j in zip(m.tocoo().row, m.tocoo().col)])
    if np.dtype(dtype).kind == "f":
        m.data = m.data.real
    m.data = m.data.astype(dtype)
    return m


def verify(ck, a, dtype, room, label):
    """Every interval between eigenvalues."""
    from simphox.mkl import feast_eigs
    w = np.linalg.eigvalsh(a)
    n, single = len(a), np.dtype(dtype).name in ("complex64", "float32")
    tol = 1e-2 if single else TOL
    groups = [w[0]]
    cuts = [w[0] - 1]
    for lo, hi in zip(w[:-1], w[1:]):
        if hi - lo > 0.12:
            cuts.append((lo + hi) / 2)
    cuts.append(w[-1] + 0.7)
    for lo, hi in itertools.combinations(cuts, 2):
        want = w[(w > lo) & (w < hi)]
        for k in room(len(want), n):
            m = sparse(a, dtype)
            before = (m.data.copy(), m.indices.copy(), m.indptr.copy())
            ck.trans()
            lab = f"{label} ({dtype}), interval ({lo:.3f}, {hi:.3f}), room for {k}"
            try:
                e, x, found, _, res, info = feast_eigs(m, (lo, hi), k)
            except RuntimeError:
                ck.check(k <= len(want), f"{lab}: fails although there is room for all {len(want)} eigenvalues", key="fails")
                ck.count("refused for lack of room")
                continue
            if single and k <= len(want):
                continue
            ck.check(found == len(want), f"{lab}: {found} eigenvalues instead of {len(want)}", key="number")
            ck.check(x.shape == (n, k) and len(e) == k and x.dtype == np.dtype(dtype) and info == 0, f"{lab}: shapes {x.shape} {e.shape}", key="shape")
            if found == len(want):
                ck.close(np.sort(e[:found]), want, f"{lab}: eigenvalues", tol, key="values")
            if found == len(want) and not single:
                ck.close(a @ x[:, :found], x[:, :found] * e[:found], f"{lab}: eigenvectors", tol * 10, key="vectors")
                ck.close(x[:, :found].conj().T @ x[:, :found], np.eye(found), f"{lab}: orthonormal eigenvectors", tol * 10, key="orthonormal")
            ck.check(all(np.array_equal(p, q) for p, q in zip(before, (m.data, m.indices, m.indptr))), f"{lab}: the matrix is modified", key="modified")
            ck.outcome(found, k)
        ck.state(dtype, a.tobytes(), round(lo, 6), round(hi, 6))
    ck.trace()


def k_small(case, ck):
    n, dtype = case["n"], case["dtype"]
    off = ROFF if np.dtype(dtype).kind == "f" else OFF
    pairs = list(itertools.combinations(range(n), 2))
    words = list(itertools.product(*([DIAG] * n + [off] * len(pairs))))
    for c in range(case.get("part", 0), len(words), case.get("parts", 1) * case.get("step", 1) * (1 if np.dtype(dtype).kind == "f" else 5 if n == 3 else 1)):
        wd = words[c]
        a = np.diag(np.array(wd[:n], complex))
        for (i, j), v in zip(pairs, wd[n:]):
            a[i, j], a[j, i] = v, np.conj(v)
        verify(ck, a, dtype, lambda m, n: sorted({m + 1, n} & set(range(m + 1, n + 1))) if m < n else [n], f"matrix {wd}")


def big(n, kind, real):
    rs = np.random.RandomState(n)
    a = np.diag(np.arange(n) * 0.75 - 3).astype(complex)
    if kind == "band":
        for d in (1, 3):
            v = (rs.rand(n - d) - 0.5) + (0 if real else 1j * (rs.rand(n - d) - 0.5))
            a += np.diag(v, d) + np.diag(v.conj(), -d)
    elif kind == "block":
        b = np.array([[1, 0.5 if real else 0.5j], [0.5 if real else -0.5j, -1]])
        a = np.kron(np.diag(np.arange(1, n // 2 + 1)), b).astype(complex)
        a = np.pad(a, (0, n - len(a))) + np.diag([0.0] * len(a) + [9.0] * (n - len(a)))
    else:  # degenerate pairs
        a = np.diag(np.repeat(np.arange(n), 2)[:n] * 1.0).astype(complex)
        v = np.ones(n)
        q = np.eye(n) - 2 * np.outer(v, v) / n
        a = q @ a @ q
        a = (a + a.conj().T) / 2
    return a


def k_large(case, ck):
    n, dtype = case["n"], case["dtype"]
    for kind in ("band", "block", "pairs"):
        a = big(n, kind, np.dtype(dtype).kind == "f")
        verify(ck, a, dtype, lambda m, n: [k for k in {m + 1, min(n, 2 * m + 2)} if m < k <= n] or [n], f"{kind} matrix of {n} rows")


def k_formats(case, ck):
    import scipy.sparse as sp
    from simphox.mkl import feast_eigs
    for dtype in DTYPES:
        for kind in ("band", "pairs"):
            a = big(8, kind, np.dtype(dtype).kind == "f")
            m = sparse(a, dtype)
            w = np.linalg.eigvalsh(a)
            lo, hi = w[0] - 1, (w[3] + w[4]) / 2
            want = w[(w > lo) & (w < hi)]
            coo = m.tocoo()
            rev = sp.csr_matrix(m)  # unsorted entries
            for i in range(8):
                s = slice(rev.indptr[i], rev.indptr[i + 1])
                rev.indices[s], rev.data[s] = rev.indices[s][::-1].copy(), rev.data[s][::-1].copy()
            rev.has_sorted_indices = False
            perm = np.argsort(np.sin(np.arange(coo.nnz) * 7.0))
            for name, x in (("csr", m), ("csc", m.tocsc()), ("coo", coo), ("shuffled coo", sp.coo_matrix((coo.data[perm], (coo.row[perm], coo.col[perm])), shape=(8, 8))),
                            ("unsorted csr", rev), ("lil", m.tolil()), ("dia", m.todia())):
                dense = x.toarray()
                for sym in (True, False):
                    e, v, found, _, _, _ = feast_eigs(x, (lo, hi), 7, sym)
                    ck.trans()
                    ck.check(found == len(want) and np.allclose(np.sort(e[:found]), want, atol=1e-2 if dtype in ("complex64", "float32") else TOL), f"{name} of {dtype} {kind}: {found} eigenvalues {e[:found]}", key="format")
                    ck.check(np.array_equal(x.toarray(), dense), f"{name} of {dtype}: the matrix is modified", key="format modified")
                ck.state(dtype, kind, name)
    for bad in (np.int64, np.bool_):
        ck.raises(lambda: feast_eigs(sp.csr_matrix(np.eye(3).astype(bad)), (0, 2), 3), f"a matrix of {bad}", TypeError, key="type")
    ck.raises(lambda: feast_eigs(sp.csr_matrix(np.ones((2, 3))), (0, 2), 2), "a rectangular matrix", ValueError, key="square")
    for lo, hi, k in ((3.0, 1.0, 3), (5.0, 6.0, 3), (0.0, 2.0, 0), (0.0, 2.0, 7)):
        ck.raises(lambda: feast_eigs(sp.csr_matrix(np.diag([1.0, 1.5, 8.0])), (lo, hi), k), f"interval ({lo}, {hi}), room for {k}", RuntimeError, key="bad arguments")
    ck.trace()


def k_history(case, ck):
    """No call depends on those before."""
    import scipy.sparse as sp
    from simphox.mkl import feast_eigs
    mats = [sparse(big(n, kind, np.dtype(t).kind == "f"), t) for n, kind, t in ((6, "band", "complex128"), (8, "pairs", "float64"), (6, "block", "complex64"), (7, "band", "float32"), (6, "pairs", "complex128"))]

    def interval(m):
        w = np.linalg.eigvalsh(m.toarray().astype(complex))
        return (w[0] - 1, (w[3] + w[4]) / 2 if w[4] - w[3] > 0.1 else (w[4] + w[5]) / 2), w

    ops = [lambda m=m: feast_eigs(m, interval(m)[0], 6) for m in mats]
    ops += [lambda: feast_eigs(mats[0], (100.0, 101.0), 3), lambda: feast_eigs(mats[1], interval(mats[1])[0], 1),
            lambda: feast_eigs(sp.csr_matrix(np.eye(3, dtype=int)), (0, 2), 3), lambda: feast_eigs(mats[0], (1.0, -1.0), 3)]

    def do(o):
        try:
            return ops[o]()
        except (RuntimeError, TypeError) as e:
            return type(e).__name__

    for d in range(case["depth"]):
        for tail in itertools.product(range(len(ops)), repeat=d):
            word = (case["first"],) + tail
            for o in word:
                do(o)
            for i, m in enumerate(mats):
                iv, w = interval(m)
                e, x, found, _, _, _ = ops[i]()
                want = w[(w > iv[0]) & (w < iv[1])]
                single = m.dtype in (np.complex64, np.float32)
                ck.trans()
                ck.check(found == len(want) and np.allclose(np.sort(e[:found]), want, atol=1e-2 if single else TOL), f"problem {i} after {word}: {e[:found]} instead of {want}", key="history")
            for o in range(5, 9):
                ck.check(isinstance(do(o), str), f"failing call {o} after {word} succeeds", key="history failure")
            ck.state(word)
            ck.trace()
