"""Vector units send the vector they are programmed with to a single output port."""
import itertools
import numpy as np
from mc import refc

ASSUMPTIONS = ["lossless vector units on their own rails or the first ones of one or two more; with coupler errors only vectors whose node splitting ratios are reachable",
               "tolerance 1e-6 on the reference product, 3e-5 on the library's transfer matrix"]
AL = [0, 1, -1, 1j, 0.6 - 0.8j, 3]


def BOUNDS(tier):
    return ("all vectors over {0, 1, -1, i, 0.6-0.8i, 3} of length 2 and 3, every k-th of length 4 to "
            f"{'6' if tier == 'quick' else '9'} (k coprime to 6), one-hot, tiny/huge scales, matrices (last column), "
            "x balanced/linear x 3 phase styles x coupler error means {0, 0.1, -0.1}")


def cases(tier, seed):
    out = []
    steps = {2: 1, 3: 1, 4: 7, 5: 97, 6: 1201} if tier == "quick" else {2: 1, 3: 1, 4: 1, 5: 11, 6: 97, 7: 1201, 8: 9901, 9: 80021}
    for n, step in steps.items():
        parts = 4 if n > 2 else 1
        for p in range(parts):
            out.append({"n": n, "step": step, "part": p, "parts": parts})
    out.append({"special": True})
    return out


def check_unit(ck, v, bal, style, err, label):
    import simphox.circuit as sc
    from simphox.circuit import PhaseStyle
    from simphox.circuit.vector import vector_unit
    vv = v[:]
    vv.setflags(write=False)
    m, w = vector_unit(vv, balanced=bal, phase_style=PhaseStyle(style), bs_error_mean_std=(err, 0.0))
    n = v.shape[0]
    x = v if v.ndim == 1 else v[:, -1]
    want = np.zeros(n, complex)
    want[-1] = np.linalg.norm(x)
    tol = 2e-5 if v.dtype in (np.complex64, np.float32) else 1e-6
    u = refc.mesh_ref(m)
    ck.trans(2)
    ck.close(u @ x, want, f"{label} through its vector unit", tol, key=f"output {style} err={err != 0}")
    ck.close(np.asarray(m.matrix_fn()(m.params, x.astype(complex))).ravel(), want, f"{label} through matrix_fn of its vector unit", 3e-5, key="matrix_fn")
    # the returned vector is what arrives in front of the output phase shifters
    u0 = np.diag(np.exp(-1j * m.gammas)) @ u
    ck.close(np.asarray(w).reshape(n, -1), u0 @ v.reshape(n, -1), f"{label}: returned fields of its vector unit", tol, key="returned")
    if err == 0:
        f = sc.balanced_tree if bal else sc.unbalanced_tree
        t = f(vv, phase_style=PhaseStyle(style)) if v.ndim == 1 else None
        if t is not None:
            ck.trans()
            row = refc.mesh_ref(t)[-1]
            nv = np.linalg.norm(v)
            if nv > 0:
                ck.close(row, v / nv, f"{label}: last row of its analyzing tree", tol, key="tree row")
                ck.close(t.matrix()[-1], v / nv, f"{label}: last matrix row of its analyzing tree", 3e-5, key="tree matrix row")
    # the same unit on the first rails of a larger circuit; the others stay as they are
    for extra in (1, 2):
        b, wb = vector_unit(vv, n_rails=n + extra, balanced=bal, phase_style=PhaseStyle(style), bs_error_mean_std=(err, 0.0))
        ck.trans()
        big = np.eye(n + extra, dtype=complex)
        big[:n, :n] = u
        for got, t, key in ((refc.mesh_ref(b), tol, "embedded"), (b.matrix(), 3e-5, "embedded matrix")):  # only the phase of the port matters
            ck.close(got[n - 1], big[n - 1], f"{key} of {label} in {n + extra} rails", t, key=key)
            ck.close(np.abs(got), np.abs(big), f"{key} of {label} in {n + extra} rails: magnitudes", t, key=key)
        ck.close(wb, w, f"returned fields of {label} embedded in {n + extra} rails", tol, key="embedded fields")
    ck.trace()
    ck.outcome(style, bal, np.round(m.thetas, 3).tobytes())


def run(case, ck):
    if "n" in case:
        n = case["n"]
        for i, v in enumerate(itertools.islice(itertools.product(AL, repeat=n), 0, None, case["step"])):
            if i % case["parts"] != case["part"]:
                continue
            v = np.array(v, complex)
            for bal in (True, False):
                for style in ("top", "bottom", "differential"):
                    ck.state(n, v.tobytes(), bal, style)
                    check_unit(ck, v, bal, style, 0.0, f"vector {v.tolist()} balanced={bal} {style}")
                    if np.all(v != 0) and np.max(np.abs(v)) < 2:
                        for err in (0.1, -0.1):
                            ck.state(n, v.tobytes(), bal, style, err)
                            check_unit(ck, v, bal, style, err, f"vector {v.tolist()} balanced={bal} {style} coupler error {err}")
            ck.sample({"vector": v.tolist()})
    else:
        vs = []
        for n in range(2, 9):
            vs += [np.eye(n, dtype=complex)[k] * (1 + k * 1j) for k in range(n)]
            vs.append(refc.generic(n, n) * np.exp(1j * refc.generic(n + 40 + ck.seed, n, hi=6)))
            vs.append(1e6 * np.exp(-1j * np.arange(n)))
            vs.append(np.arange(n))
            vs.append(np.ones(n))
            vs.append(np.zeros(n, complex))
            vs.append(refc.generic(n, n, 3) + 1j * refc.generic(n + 60, n, 3))
            vs.append(10.0 ** -np.arange(n) * (1 + 0j))
        for n in (9, 12, 15, 16, 17, 31, 32, 33):
            vs += [np.eye(n, dtype=complex)[n // 3], np.ones(n), refc.generic(n, n) * np.exp(1j * refc.generic(n + 40, n, hi=6)), np.arange(n) * (-1) ** np.arange(n)]
        for n in (3, 4):
            x = refc.generic(n, n) * np.exp(1j * refc.generic(n + 41, n, hi=6))
            vs += [x.astype(np.complex64), x.real.astype(np.float32), np.repeat(x, 3)[::3]]
        for k, v in enumerate(vs):
            s = max(1.0, float(np.max(np.abs(v))) if v.size else 1.0)
            for bal in (True, False):
                for style in ("top", "bottom", "differential"):
                    ck.state("special", k, bal, style)
                    check_unit(ck, v / s if s > 1 else v, bal, style, 0.0, f"special vector {k} (length {v.shape[0]}) balanced={bal} {style}")
