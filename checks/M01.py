"""Mode solutions are the guided eigenmodes of the documented operator, and everything derived from them is consistent."""
import itertools
import numpy as np

TOL = 2e-6
ASSUMPTIONS = ["reference: documented operator assembled cell by cell and diagonalised densely (numpy)", "lossless isotropic permittivities, periodic cross sections",
               "degenerate eigenvalues: every returned pair must be an eigenpair and the largest must be found, multiplicities are not compared",
               "guesses not on an eigenvalue", "interval guesses: 1D cross sections (the interval solver refuses unsymmetric operators)"]
LO, HI = 2.25, 12.0


def BOUNDS(tier):
    return ("all binary permittivities of 1D cross sections of 5..8 pixels and of 3x3 (strides of 2x3, 4x3, 5x4) x spacings x wavelengths x numbers of modes; float guesses around and between all eigenvalues; "
            "all intervals between consecutive eigenvalues; all wavelength sweeps of <= 3; libraries: every mode, field and derived value")


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for n in (5, 6, 7, 8):
        for lo in range(0, 2 ** n, 64):
            out.append({"kind": "solve", "shape": (n,), "codes": [lo, min(lo + 64, 2 ** n), 1]})
    for lo in range(0, 512, 32):
        out.append({"kind": "solve", "shape": (3, 3), "codes": [lo, lo + 32, 1]})
    for s, st in (((2, 3), 1), ((4, 3), 37), ((5, 4), 9973)):
        n = 2 ** int(np.prod(s))
        out.append({"kind": "solve", "shape": s, "codes": [st // 2, n, st if q else max(1, st // 8)]})
    out += [{"kind": "guess", "shape": s, "part": i, "step": 1 if not q else 2} for s in ((8,), (3, 3), (4, 3)) for i in range(4)]
    out += [{"kind": "interval", "n": n, "part": i} for n in (8, 10, 12) for i in range(4)]
    out += [{"kind": "sweep", "shape": s} for s in ((8,), (4, 3))]
    out += [{"kind": "library", "shape": s, "codes": list(c)} for s, c in (((7,), (3, 127, 5)), ((9,), (28, 511, 67)), ((3, 3), (16, 511, 30)), ((4, 3), (96, 4095, 500)), ((3, 5), (0x0e60, 32767, 5000)), ((1, 5), (4, 31, 7)))]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def pattern(shape, code):
    n = int(np.prod(shape))
    return np.array([HI if code >> i & 1 else LO for i in range(n)]).reshape(shape)


def operator(shape, spacing, wl, eps):
    from mc.refem import Ref, yee
    r = Ref(shape, spacing, 2 * np.pi / wl)
    f, b = [np.asarray(x).real for x in r.f], [np.asarray(x).real for x in r.b]
    k2 = (2 * np.pi / wl) ** 2
    if len(shape) == 1:
        return np.diag(k2 * eps) + f[0] @ b[0], f, b
    e = yee(eps.reshape(r.shape))
    ex, ey, ez = [np.diag(x.ravel()) for x in e]
    z = np.zeros_like(ex)
    t = np.block([[ey, z], [z, ex]])
    c = k2 * t + t @ np.vstack([-f[1], f[0]]) @ np.linalg.inv(ez) @ np.hstack([-b[1], b[0]]) + np.vstack(b[:2]) @ np.hstack(f[:2])
    return c, f, b


def nearest(C, sigma, k):
    """(guided eigenvalues among the k nearest to sigma, descending; whether they are well separated), None if ambiguous."""
    w = np.linalg.eigvals(C)
    w = w[np.argsort(np.abs(w - sigma))]
    scale = max(abs(sigma), 1.0)
    take = w[:k]
    if np.abs(take.imag).max() > 1e-6 * scale:
        return None, False
    if len(w) > k and abs(abs(w[k] - sigma) - abs(w[k - 1] - sigma)) < 1e-5 * scale:
        if abs(w[k] - w[k - 1]) > 1e-5 * scale:
            return None, False
        sep = False
    else:
        sep = True
    srt = np.sort(take.real)
    sep = sep and (len(srt) < 2 or np.diff(srt).min() > 1e-5 * scale)
    if np.abs(srt).min() < 1e-4 * scale:
        return None, False  # at cutoff
    return srt[srt > 0][::-1], sep


def verify(ck, shape, C, f, betas, modes, want, sep, label, key):
    n = C.shape[0]
    scale = np.abs(want).max() if len(want) else 1.0
    betas, modes = np.asarray(betas), np.asarray(modes)
    ck.check(bool(np.all(np.isreal(betas))) and bool(np.all(np.diff(betas) <= 1e-9)) and bool(np.all(betas > 0)), f"{label}: propagation constants {betas} must be positive and descending", key=key + " order")
    if sep:
        ck.close(betas ** 2 / scale if len(want) else betas, want / scale, f"{label}: squared propagation constants {betas ** 2} instead of {want}", TOL, key=key + " betas")
    elif len(want):
        ck.check(len(betas) > 0 and abs(betas[0] ** 2 - want[0]) < TOL * scale, f"{label}: largest propagation constant of {betas} instead of {np.sqrt(want)}", key=key + " betas")
    width = n if len(shape) == 1 else 3 * n // 2
    if not ck.check(modes.shape == (len(betas), width), f"{label}: modes of shape {modes.shape}", key=key + " shape"):
        return
    for b, m in zip(betas, modes):
        t = m[:n]
        nt = np.linalg.norm(t)
        ck.check(nt > 1e-3, f"{label}: mode of norm {nt}", key=key + " norm")
        res = np.linalg.norm(C @ t - b ** 2 * t) / (nt * max(scale, 1))
        ck.check(res < 2e-5, f"{label}: mode {b} leaves a residual of {res:.3g}", key=key + " residual")
        if len(shape) == 2:
            q = n // 2
            hz = (f[0] @ t[:q] + f[1] @ t[q:]) / (1j * b)
            ck.close(m[n:], hz, f"{label}: axial field of mode {b}", 1e-5, key=key + " axial")
        ck.check(abs(m[0].imag) <= 1e-9 and m[0].real >= 0, f"{label}: phase of mode {b} starts with {m[0]}", key=key + " phase")
    ck.outcome(shape, len(betas), tuple(np.round(betas, 3)))


def solver(shape, spacing, wl, eps):
    from simphox.mode import ModeSolver
    size = tuple(s * d for s, d in zip(shape, spacing))
    return ModeSolver(size, spacing if len(set(spacing)) > 1 else spacing[0], wavelength=wl, eps=eps)


def setups(shape):
    d = len(shape)
    return [((0.1,) * d, 0.7), ((0.1, 0.13)[:d], 1.55), ((0.05,) * d, 0.5)]


def k_solve(case, ck):
    shape = tuple(case["shape"])
    for code in range(*case["codes"]):
        for i, (sp, wl) in enumerate(setups(shape)):
            eps = pattern(shape, code)
            s = solver(shape, sp, wl, eps)
            C, f, b = operator(shape, sp, wl, eps)
            ck.close(s.waveguide_mode_matrix.toarray(), C, f"mode operator of {eps.tolist()} spacing {sp} wavelength {wl}", 1e-9, key=f"operator {len(shape)}")
            ck.check(abs(s.k0 - 2 * np.pi / wl) < 1e-12, f"k0 of wavelength {wl}", key="k0")
            for k in ((1, 3), (2,), (3, 1))[i] if len(shape) == 1 else ((1, 4), (2,), (3,))[i]:
                sigma = (2 * np.pi / wl) ** 2 * eps.max() * (1 + 1e-4)
                want, sep = nearest(C, sigma, k)
                if want is None:
                    ck.count("ambiguous")
                    continue
                before = s.eps.copy()
                betas, modes = s.solve(k)
                ck.trans()
                ck.check(np.array_equal(before, s.eps) and s.wavelength == wl, "solving changed the solver", key="solver changed")
                verify(ck, shape, C, f, betas, modes, want, sep, f"{k} modes of {eps.tolist()} spacing {sp} wavelength {wl}", f"solve {len(shape)}")
                if k == 1 and i == 0:  # a guess of the mode changes nothing but the effort
                    b2, m2 = s.solve(k, mode_guess=np.array(modes[0]))
                    ck.trans()
                    verify(ck, shape, C, f, b2, m2, want, sep, f"{k} modes of {eps.tolist()} with a guess", f"guess {len(shape)}")
            ck.state(shape, code, i)
        ck.trace()
    ck.sample({"eps": eps.tolist()})


CODES = {(8,): (24, 28, 12, 102, 60, 36, 90, 129), (3, 3): (16, 24, 48, 176, 56, 186, 3, 257), (4, 3): (96, 102, 1632, 120, 960, 63, 3, 1040)}


def k_guess(case, ck):
    shape = tuple(case["shape"])
    for code in CODES[shape][case["part"]::4]:
        for sp, wl in setups(shape)[::case["step"]]:
            eps = pattern(shape, code)
            s = solver(shape, sp, wl, eps)
            C, f, b = operator(shape, sp, wl, eps)
            w = np.linalg.eigvals(C)
            g = np.sqrt(np.sort(w.real[(w.real > 1)])[::-1][:5])
            marks = list(g * 1.003) + list((g[:-1] * 0.6 + g[1:] * 0.4)) + [g[0] * 1.3]
            for guess in marks:
                if np.abs(g / guess - 1).min() < 1e-3:
                    continue  # a shift on an eigenvalue is singular
                for k in (1, 2, 3):
                    want, sep = nearest(C, guess ** 2, k)
                    if want is None:
                        ck.count("ambiguous")
                        continue
                    for tol in (1e-7, 1e-9):
                        betas, modes = s.solve(k, beta_guess=float(guess), tol=tol)
                        ck.trans()
                        verify(ck, shape, C, f, betas, modes, want, sep, f"{k} modes around {guess:.4g} of {eps.tolist()} spacing {sp} wavelength {wl}", f"guess {len(shape)}")
                ck.state(shape, code, sp, guess)
            for bad in ("3", [1.0, 2.0]):
                ck.raises(lambda: s.solve(1, beta_guess=bad), f"guess {bad!r}", TypeError, key="bad guess")
            ck.trace()


def k_interval(case, ck):
    """Interval guesses (contour solver): the modes of the interval, all of them and nothing else."""
    n = case["n"]
    for code in range(case["part"] * 5 + 1, 2 ** n, 2 ** n // 6 + 1):
        eps = pattern((n,), code)
        s = solver((n,), (0.1,), 0.7, eps)
        C, f, b = operator((n,), (0.1,), 0.7, eps)
        w = np.linalg.eigvalsh(C)[::-1]
        w = w[w > 1]
        cuts = [w[0] * 1.1] + list((w[:-1] + w[1:]) / 2) + [w[-1] / 2]
        for i, j in itertools.combinations(range(len(cuts)), 2):
            want = w[i:j]
            if np.diff(np.append(cuts[i], np.append(want, cuts[j]))).max() > -1e-3 * w[0]:
                ck.count("close to a cut")
                continue
            k = min(n, 2 * (j - i) + 2)
            try:
                betas, modes = s.solve(k, beta_guess=(float(np.sqrt(cuts[j])), float(np.sqrt(cuts[i]))))
            except RuntimeError:
                ck.count("refused")  # not converged: no answer is no wrong answer
                continue
            ck.count("answered")
            ck.trans()
            verify(ck, (n,), C, f, betas, modes, want, True, f"modes within {np.sqrt(cuts[j]):.4g} .. {np.sqrt(cuts[i]):.4g} of {eps.tolist()}", "interval")
            ck.state(n, code, i, j)
        ck.trace()


def k_sweep(case, ck):
    shape = tuple(case["shape"])
    eps = pattern(shape, CODES[shape][0])
    sp = (0.1,) * len(shape)
    wls = (0.7, 1.55, 0.6)
    for d in (1, 2, 3):
        for word in itertools.product(wls, repeat=d):
            for pbar in (None, lambda x: x):
                s = solver(shape, sp, 0.9, eps)
                sols = s.dispersion_sweep(np.array(word), m=2, pbar=pbar)
                ck.trans()
                ck.check(s.wavelength == 0.9, f"wavelength {s.wavelength} after the sweep {word}", key="sweep wavelength")
                if not ck.check(len(sols) == d, f"{len(sols)} solutions of the sweep {word}", key="sweep length"):
                    continue
                for wl, (betas, modes) in zip(word, sols):
                    C, f, b = operator(shape, sp, wl, eps)
                    want, sep = nearest(C, (2 * np.pi / wl) ** 2 * eps.max() * (1 + 1e-4), 2)
                    if want is not None:
                        verify(ck, shape, C, f, betas, modes, want, sep, f"sweep {word} at {wl}", "sweep")
            ck.state(shape, word)
            ck.trace()


def roll(a, axis):
    return np.roll(a, 1, axis)


def power(e, h):
    """Axial power density, both fields averaged to the pixel centres."""
    avg = lambda f, axis: (f + np.roll(f, 1, axis)) / 2
    return avg(e[0], 1) * np.conj(avg(h[1], 1)) - avg(e[1], 0) * np.conj(avg(h[0], 0))


def k_library(case, ck):
    from mc.refem import Ref, yee
    from simphox.mode import ModeLibrary
    shape = tuple(case["shape"])
    nd = len(shape)
    shape3 = shape + (1,) * (3 - nd)
    a, b_, st = case["codes"]
    for code in range(a, b_ + 1, st):
        for i, (sp, wl) in enumerate(setups(shape)):
            if nd == 1 and i == 1:
                continue
            eps = pattern(shape, code)
            k0 = 2 * np.pi / wl
            label = f"library of {eps.tolist()} spacing {sp} wavelength {wl}"
            C, f, b = operator(shape, sp, wl, eps)
            want, sep = nearest(C, k0 ** 2 * eps.max() * (1 + 1e-4), 3)
            if want is None or len(want) == 0:
                ck.count("ambiguous")
                continue
            s = solver(shape, sp, wl, eps)
            lib = ModeLibrary(s, 3)
            ck.trans()
            verify(ck, shape, C, f, lib.betas, lib.modes, want, sep, label, f"library {nd}")
            nm = len(lib.betas)
            ck.check(lib.m == nm and lib.num_modes == nm, f"{label}: counts {lib.m} modes", key="library count")
            ck.close(lib.ns, lib.betas / k0, f"{label}: indices", 1e-9, key="ns")
            r = Ref(shape, sp, k0)
            et = yee(eps.reshape(shape3))
            for m in range(nm):
                be = lib.betas[m]
                ck.check(lib.beta(m) == be and abs(lib.n(m) - be / k0) < 1e-9, f"{label}: beta or index of mode {m}", key="beta")
                for ln in (1, 0.3, 2.5):
                    ck.close(lib.phase(ln, m), be * ln, f"{label}: phase over {ln} of mode {m}", 1e-9, key="phase")
                mode = lib.modes[m]
                D = lambda mats, ax, v: np.asarray(mats[ax] @ v.ravel()).reshape(shape3)
                if nd == 2:
                    h = mode.reshape((3,) + shape3)
                    e = np.stack([D(b, 1, h[2]) + 1j * be * h[1], -1j * be * h[0] - D(b, 0, h[2]), D(b, 0, h[1]) - D(b, 1, h[0])]) / (1j * k0 * et)
                    ck.close(lib.h(m), h, f"{label}: magnetic field of mode {m}", 1e-9, key="h 2d")
                    ck.close(lib.e(m), e, f"{label}: electric field of mode {m}", 1e-7, key="e 2d")
                    e = np.asarray(lib.e(m))
                    back = np.stack([D(f, 1, e[2]) + 1j * be * e[1], -1j * be * e[0] - D(f, 0, e[2]), D(f, 0, e[1]) - D(f, 1, e[0])]) / (-1j * k0)
                    err = np.abs(back - h).max() / np.abs(h).max()
                    ck.check(err < 1e-3, f"{label}: fields of mode {m} violate the curl equations by {err:.3g}", key="maxwell")
                    ck.close(s.h2e(h, be), e, f"{label}: h2e", 1e-9, key="h2e")
                    ck.close(s.e2h(e, be), back, f"{label}: e2h", 1e-7, key="e2h")
                    w = [np.sum(np.abs(h[c]) ** 2) for c in (0, 1)]
                    ck.close(np.ravel(lib.te_ratio(m)), [w[0] / (w[0] + w[1])], f"{label}: polarisation of mode {m}", 1e-9, key="te_ratio")
                    ck.close(lib.sz(m), power(e, h).reshape(shape3).squeeze(), f"{label}: power of mode {m}", 1e-9, key="sz")
                else:
                    for tm in (True, False):
                        h, e = np.asarray(lib.h(m, tm_2d=tm)), np.asarray(lib.e(m, tm_2d=tm))
                        ok = ck.check(h.shape == (3,) + shape3 and e.shape == (3,) + shape3, f"{label}: field shapes {h.shape} {e.shape}", key="1d shape")
                        if not ok:
                            continue
                        main, other = (h, e) if tm else (e, h)
                        u = mode.reshape(shape3)
                        den = 1j * k0 * (et if tm else -np.ones_like(et))
                        ck.close(main, np.stack([0 * u, u, 0 * u]), f"{label}: transverse field tm={tm} of mode {m}", 1e-9, key=f"1d main {tm}")
                        ck.close(other[0], 1j * be * u / den[0], f"{label}: longitudinal partner tm={tm} of mode {m}", 1e-9, key=f"1d partner {tm}")
                        ck.close(other[1], 0 * u, f"{label}: zero component tm={tm} of mode {m}", 1e-9, key=f"1d zero {tm}")
                        ck.close(other[2], D(b if tm else f, 0, u) / den[2], f"{label}: axial component tm={tm} of mode {m}", 1e-9, key=f"1d axial {tm}")
                    ck.close(lib.sz(m), power(np.asarray(lib.e(m)), np.asarray(lib.h(m))).squeeze(), f"{label}: power of mode {m}", 1e-9, key="sz 1d")
                    ck.raises(lambda: lib.te_ratio(m), f"{label}: polarisation of a 1D mode", AttributeError, key="te_ratio 1d")
            for bad in (nm, nm + 3):
                for fn in (lib.h, lib.e, lib.sz, lib.beta, lib.n):
                    ck.raises(lambda: fn(bad), f"{label}: mode {bad} of {nm}", ValueError, key="range")
            if nm > 1:
                ck.close([lib.dbeta, lib.dn], [lib.betas[0] - lib.betas[1], (lib.betas[0] - lib.betas[1]) / k0], f"{label}: differences", 1e-9, key="dbeta")
                for p, q in itertools.permutations(range(nm), 2):
                    if abs(lib.betas[p] - lib.betas[q]) > 1e-3:
                        ck.close(lib.beat_length(p, q) * (lib.betas[p] - lib.betas[q]), 2 * np.pi, f"{label}: beat length {p} {q}", 1e-9, key="beat")
            for wts in ((1,), (0.5, 2j), (0, 1), (1, -1, 0.3))[:nm + 1]:
                if len(wts) > nm:
                    continue
                for use_h in (True, False):
                    fld = lib.h if use_h else lib.e
                    for ln in (np.array([0.0, 0.7, 3.0]), np.array([1.1])):
                        got = np.asarray(lib.evolve(ln, wts, use_h))
                        w = sum(np.asarray(fld(j))[..., None] * np.exp(1j * lib.betas[j] * ln) * wts[j] for j in range(len(wts)))
                        ck.close(got, w, f"{label}: evolution over {ln} weights {wts} use_h={use_h}", 1e-9, key="evolve")
                    got = np.asarray(lib.evolve(0.7, wts, use_h))
                    w = sum(np.asarray(fld(j)) * np.exp(1j * lib.betas[j] * 0.7) * wts[j] for j in range(len(wts)))
                    ck.close(got.reshape(w.shape), w, f"{label}: evolution over 0.7 weights {wts}", 1e-9, key="evolve scalar")
            for wl2 in (wl * 0.9, wl):
                again = lib.update_wavelength(wl2)
                ck.trans()
                C2, f2, b2 = operator(shape, sp, wl2, eps)
                w2, sep2 = nearest(C2, (2 * np.pi / wl2) ** 2 * eps.max() * (1 + 1e-4), 3)
                ck.check(again is lib and lib.solver.wavelength == wl2, f"{label}: updated to {lib.solver.wavelength} instead of {wl2}", key="update")
                if w2 is not None and len(w2):
                    verify(ck, shape, C2, f2, lib.betas, lib.modes, w2, sep2, label + f" updated to {wl2}", "update")
                    ck.close(lib.ns, lib.betas * wl2 / (2 * np.pi), f"{label}: indices at {wl2}", 1e-9, key="ns update")
                    ck.check(lib.m == len(lib.betas), f"{label}: count after the update", key="update count")
            ck.state(shape, code, i)
        ck.trace()
