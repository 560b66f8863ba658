"""The direct solver always solves the system it is given, whatever happened before."""
import itertools
import numpy as np

TOL = 1e-9
ASSUMPTIONS = ["well-conditioned matrices (condition number < 1e3); reference: numpy dense solve",
               "one process, one thread (threads: S02)"]
# operations on the solver shared by the whole process; each is followed by a comparison with the dense solution
OPS = ("M1", "M1multi", "M1T", "M2", "M3", "edit1", "coo_dup2", "csc1", "unsorted2", "real_rhs1", "singular", "short_rhs",
       "wrong_dtype", "dense_rejected", "free", "free_factor", "factor2", "jax1", "perm2", "fortran3")


def BOUNDS(tier):
    return (f"every window of {3 if tier == 'quick' else 4} consecutive operations out of {len(OPS)} on the process-wide solver (de Bruijn walks), "
            f"and every sequence of <= {2 if tier == 'quick' else 3} operations on fresh solver objects of every matrix type, alone and interleaved with a second object; wave operators of every small slab in a grid of sizes, positions, indices and wavelengths")


def cases(tier, seed):
    order = 3 if tier == "quick" else 4
    out = [{"walk": r, "parts": 8, "order": order} for r in range(8)]
    out += [{"mtype": m, "depth": 2 if tier == "quick" else 3} for m in (13, 11, 6, 2, -2, 4, -4)]
    out += [{"pair": True}]
    out += [{"wave": n} for n in ((10, 14, 16) if tier == "quick" else range(8, 21))]
    return out


def debruijn(k, n):
    """Lexicographically least de Bruijn sequence of order n over range(k)."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    import sys
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq + seq[:n - 1]


def matrices():
    import scipy.sparse as sp
    n = 40

    def tri(n, k, d=4.0):
        rs = np.random.RandomState(k)
        m = sp.diags([d + rs.rand(n) + 0.5j * rs.rand(n), rs.rand(n - 1) - 0.3j, 0.7 * rs.rand(n - 1) + 0.1j], [0, 1, -1], format="csr")
        far = sp.coo_matrix((rs.rand(6) + 1j * rs.rand(6), (np.array([0, 3, 9, 22, 30, n - 2]) % n, np.array([7, n - 1, 1, 5, 11, 2]) % n)), shape=(n, n))
        m = (m + far).tocsr()
        m.sum_duplicates()
        return m
    m1 = tri(n, 1)
    m2 = m1.copy()
    m2.data = m2.data.copy()
    m2.data[m2.nnz // 2] *= -1.7  # differs from m1 in a single entry in the middle
    m3 = tri(23, 3)
    perm = m1.copy()  # same entries, one of them in another column
    return m1, m2, m3


def rhs(n, k, cols=None):
    rs = np.random.RandomState(40 + k)
    shape = (n,) if cols is None else (n, cols)
    return rs.randn(*shape) + 1j * rs.randn(*shape)


class World:
    """The caller's matrices and the expected answers; the matrices may be edited in place by the history."""

    def __init__(self):
        import scipy.sparse as sp
        self.m1, self.m2, self.m3 = matrices()
        s = self.m1.toarray()
        s[5] = s[6]
        self.sing = sp.csr_matrix(s)
        self.sing0 = sp.csr_matrix(np.zeros((40, 40), complex) + np.diag(np.r_[np.ones(39), 0]))
        self.edits = 0

    def do(self, op, ck, where):
        import scipy.sparse as sp
        from simphox.mkl import spsolve_pardiso, pardiso
        m1, m2, m3 = self.m1, self.m2, self.m3
        if op == "edit1":
            self.edits += 1
            m1.data[(7 * self.edits) % m1.nnz] *= np.exp(0.3j)  # in place: same object, same arrays
            return self.solve(ck, m1, rhs(40, 0), where)
        if op == "M1":
            return self.solve(ck, m1, rhs(40, 0), where)
        if op == "M1multi":
            return self.solve(ck, m1, rhs(40, 1, 3), where)
        if op == "M1T":
            return self.solve(ck, m1.T.tocsr(), rhs(40, 2), where)
        if op == "M2":
            return self.solve(ck, m2, rhs(40, 0), where)
        if op == "M3":
            return self.solve(ck, m3, rhs(23, 0), where)
        if op == "coo_dup2":
            c = m2.tocoo()
            c = sp.coo_matrix((np.r_[c.data * 0.25, c.data * 0.75], (np.r_[c.row, c.row], np.r_[c.col, c.col])), shape=c.shape)
            return self.solve(ck, c, rhs(40, 3), where)
        if op == "csc1":
            return self.solve(ck, m1.tocsc(), rhs(40, 4), where)
        if op == "unsorted2":
            u = m2.copy()
            for r in range(u.shape[0]):
                lo, hi = u.indptr[r], u.indptr[r + 1]
                u.indices[lo:hi] = u.indices[lo:hi][::-1].copy()
                u.data[lo:hi] = u.data[lo:hi][::-1].copy()
            u.has_sorted_indices = False
            return self.solve(ck, u, rhs(40, 5), where)
        if op == "perm2":  # the same stored values and row pointers as m2, with the columns of one row exchanged
            u = m2.copy()
            lo = u.indptr[9]
            u.data[lo], u.data[lo + 1] = u.data[lo + 1], u.data[lo]
            return self.solve(ck, u, rhs(40, 0), where)
        if op == "real_rhs1":
            return self.solve(ck, m1, np.arange(40.0), where)
        if op == "fortran3":
            return self.solve(ck, m3, np.asfortranarray(rhs(23, 6, 2)), where)
        if op == "singular":
            ck.trans()
            return ck.raises(lambda: spsolve_pardiso(self.sing0 if self.edits % 2 else self.sing, rhs(40, 0)),
                             f"singular system {where}", RuntimeError, key="singular")
        if op == "short_rhs":
            ck.trans()
            return ck.raises(lambda: spsolve_pardiso(m2, rhs(39, 0)), f"too short right-hand side {where}", key="short")
        if op == "wrong_dtype":
            ck.trans()
            return ck.raises(lambda: spsolve_pardiso(sp.csr_matrix(np.eye(40)), rhs(40, 0)), f"real matrix for the complex solver {where}", key="dtype")
        if op == "dense_rejected":
            ck.trans()
            return ck.raises(lambda: spsolve_pardiso(m1.toarray(), rhs(40, 0)), f"dense matrix {where}", TypeError, key="dense")
        ck.trans()
        if op == "free":
            pardiso.free()
        elif op == "free_factor":
            pardiso.free(complete=False)
        elif op == "factor2":
            pardiso.factor(m2)
        elif op == "jax1":
            import jax.numpy as jnp
            from simphox.primitives import spsolve
            c = m1.tocoo()
            b = rhs(40, 7)
            x = np.asarray(spsolve(jnp.array(c.data), jnp.array(b), jnp.array(np.vstack([c.row, c.col]))))
            ck.close(x, np.linalg.solve(m1.toarray(), b), f"jax solve {where}", TOL, key="jax")

    def solve(self, ck, mat, b, where):
        from simphox.mkl import spsolve_pardiso
        parts = [q for q in ("data", "indices", "indptr", "row", "col") if hasattr(mat, q)]
        keep = {q: getattr(mat, q).copy() for q in parts}
        given = b.copy()
        dense = mat.toarray()
        x = spsolve_pardiso(mat, b)
        ck.trans()
        ck.check(all(np.array_equal(keep[q], getattr(mat, q)) for q in parts), f"the matrix was modified {where}", key="matrix modified")
        ck.check(np.array_equal(given, b), f"the right-hand side was modified {where}", key="rhs modified")
        want = np.linalg.solve(dense, b)
        ck.check(x.shape == b.shape, f"solution of shape {x.shape} for a right-hand side of shape {b.shape} {where}", key="shape")
        ck.close(x, want, f"solution {where}", TOL, key="solution")
        ck.outcome(np.round(want.ravel()[:3], 6).tobytes())


def run(case, ck):
    if "walk" in case:
        r = case["walk"]
        k = len(OPS)
        # each walk uses another order of the alphabet, and together they split the sequence
        ops = OPS
        seq = debruijn(k, case["order"])
        size = -(-len(seq) // case["parts"])
        part = seq[max(0, r * size - case["order"] + 1):(r + 1) * size]
        w, hist = World(), []
        for t in part:
            if w.edits % 50 == 49:
                w = World()
            hist.append(ops[t])
            ck.state(tuple(hist[-case["order"]:]))
            w.do(ops[t], ck, "after " + ", ".join(hist[-5:-1]) + f" [{ops[t]}]")
            ck.trace()
        ck.sample({"history": hist[:6], "length": len(hist)})
    elif "wave" in case:
        waves(ck, case["wave"])
    elif "mtype" in case:
        objects(ck, case["mtype"], case["depth"])
    else:
        interleaved(ck)


def typed(mtype):
    """Two matrices of a type."""
    import scipy.sparse as sp
    out = []
    for k in (1, 2):
        rs = np.random.RandomState(k)
        a = rs.randn(9, 9) * (rs.rand(9, 9) < 0.5)
        if mtype in (13, 6, 4, -4):
            a = a + 1j * rs.randn(9, 9) * (a != 0)
        if mtype in (2, -2, 6):
            a = a + a.T
        if mtype in (4, -4):
            a = a + a.conj().T
        a = a + np.eye(9) * (14 if mtype in (2, 4) else 9 * (-1) ** np.arange(9)[:, None] if mtype in (-2, -4) else 9)
        out.append(sp.csr_matrix(a))
    return out


def objects(ck, mtype, depth):
    from simphox.mkl import Pardiso
    mats = typed(mtype)
    ops = [("solve", 0), ("solve", 1), ("multi", 0), ("edit", 0), ("factor", 0), ("factor", 1), ("free", 0), ("free_factor", 0), ("short", 0)]
    for d in range(1, depth + 1):
        for word in itertools.product(range(len(ops)), repeat=d):
            p = Pardiso(mtype)
            ms = [m.copy() for m in mats]
            names = []
            for t in list(word) + [0, 1]:
                op, i = ops[t]
                names.append(f"{op}{i}")
                m = ms[i]
                ck.trans()
                if op in ("solve", "multi", "edit"):
                    if op == "edit":
                        j = int(np.argmax(np.abs(m.diagonal())))
                        m.data[m.indptr[j] + list(m.indices[m.indptr[j]:m.indptr[j + 1]]).index(j)] *= 1.5
                    b = rhs(9, 1, 2 if op == "multi" else None)
                    b = b if p.dtype == np.complex128 else b.real.copy()
                    x = p.solve(m, b)
                    ck.close(np.asarray(x).reshape(b.shape), np.linalg.solve(m.toarray(), b), f"type {mtype}: solution after {names}", TOL, key=f"type {mtype}")
                    ck.outcome(mtype, np.round(np.asarray(x).ravel()[:2], 5).tobytes())
                elif op == "factor":
                    p.factor(m)
                elif op == "short":
                    ck.raises(lambda: p.solve(m, rhs(8, 0).astype(p.dtype)), f"type {mtype}: short right-hand side after {names}", key="short")
                else:
                    p.free(op == "free")
            p.free()
            ck.state(mtype, word)
            ck.trace()
    ck.sample({"mtype": mtype, "history": names})


def interleaved(ck):
    """Two solver objects do not affect each other."""
    from simphox.mkl import Pardiso
    for ta, tb in ((13, 13), (13, 11), (11, 2), (6, 4)):
        for word in itertools.product("abAB", repeat=4):
            objs = {"a": Pardiso(ta), "b": Pardiso(tb)}
            for c in word:
                p, mats = objs[c.lower()], typed(ta if c in "aA" else tb)
                m = mats[int(c.isupper())]
                b = rhs(9, 1)
                b = b if p.dtype == np.complex128 else b.real.copy()
                ck.trans()
                ck.close(np.asarray(p.solve(m, b)).ravel(), np.linalg.solve(m.toarray(), b), f"two solvers ({ta}, {tb}) used as {word}", TOL, key="two solvers")
            ck.state(ta, tb, word)
            ck.trace()
            for p in objs.values():
                p.free()


def waves(ck, nx):
    """Wave operators of small periodic domains with one dielectric block, as the frequency-domain solver produces them."""
    from simphox.mkl import Pardiso
    import scipy.sparse as sp
    d = lambda n: sp.csr_matrix(np.roll(np.eye(n), 1, 1) - np.eye(n)) / 0.1
    for ny, x0, w, index in itertools.product((9, 14), range(1, 5), (2, 3, 5), (2.0, 3.4)):
        eps = np.ones((nx, ny))
        eps[x0:x0 + w, ny // 2 - 1:ny // 2 + 2] = index ** 2
        df = [sp.kron(d(nx), sp.eye(ny)), sp.kron(sp.eye(nx), d(ny))]
        p = Pardiso(13)
        for k0 in (3.3, 2 * np.pi):
            for te in (0, 1):
                inv = sp.diags(1 / eps.ravel())
                m = sum(-a @ (-a.T) for a in df) - k0 ** 2 * sp.diags(eps.ravel()) if te else sum(-(-a.T) @ inv @ a for a in df) - k0 ** 2 * sp.eye(nx * ny)
                m = sp.csr_matrix(m.astype(complex))
                dense = m.toarray()
                ck.trans()
                if np.linalg.cond(dense, 1) > 1e5:
                    continue
                b = np.exp(1j * np.arange(nx * ny))
                for again in (0, 1):
                    x = p.solve(m, b)
                    ck.close(x, np.linalg.solve(dense, b), f"wave operator {nx}x{ny}, block at {x0} of width {w}, index {index}, k0 {k0:.3g}, te {te}, solve {again}", 1e-8, key="wave operator")
                ck.state(nx, ny, x0, w, index, k0, te)
        p.free()
        ck.trace()
