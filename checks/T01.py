"""Design transforms (smoothing, symmetries, masks) do exactly what they promise for every design."""
import itertools
import numpy as np

TOL = 1e-9
ASSUMPTIONS = ["symmetries: no diagonal together with exactly one orthogonal mirror (the documented order of the mirrors does not keep both)",
               "designs with values in [0, 1]"]


def BOUNDS(tier):
    return ("all binary designs of 3x3 (and a stride of 4x4, 2x5, 1x4, 9x1, 3x8, 6x6), also thinner than the kernel, of every array type x radii 0..3 x projections x eta; all symmetric flag combinations x all binary designs of <= 3x3 and unit designs of up to 6x5; "
            "all boxes of a 4x5 grid and all pairs of a subset x complete Jacobians")


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kind": "smooth", "shape": s, "radius": r} for s in ((3, 3), (4, 4), (2, 5), (1, 4), (6, 6), (1, 1), (9, 1), (3, 8)) for r in (0, 1, 2, 3)]
    out += [{"kind": "symmetry", "shape": s} for s in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (4, 1), (4, 4), (5, 5), (6, 5), (4, 6))]
    out += [{"kind": "mask", "part": i, "parts": 4} for i in range(4)]
    if not q:
        out += [{"kind": "smooth", "shape": (4, 5), "radius": r} for r in (1, 2)]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


def binary(shape, code):
    n = int(np.prod(shape))
    return np.array([code >> i & 1 for i in range(n)], float).reshape(shape)


def designs(shape, step):
    n = int(np.prod(shape))
    for code in range(0, 2 ** n, step):
        yield binary(shape, code)
    yield np.linspace(0, 1, n).reshape(shape)
    yield ((np.arange(n) * 7 % 11) / 11).reshape(shape)


FORMS = [("numpy array", lambda a: a.copy()), ("column-major array", np.asfortranarray), ("integers", lambda a: a.astype(int)), ("booleans", lambda a: a.astype(bool)),
         ("jax booleans", lambda a: __import__("jax").numpy.array(a.astype(bool))), ("single precision", lambda a: a.astype(np.float32))]
BINARY = ("integers", "booleans", "jax booleans")


def smooth_ref(rho, beta, radius, eta):
    nx, ny = rho.shape
    disk = [(i, j) for i in range(-radius, radius + 1) for j in range(-radius, radius + 1) if i * i + j * j < (radius + 1) ** 2]
    a = np.zeros_like(rho)
    for x, y in itertools.product(range(nx), range(ny)):
        a[x, y] = sum(rho[x + i, y + j] for i, j in disk if 0 <= x + i < nx and 0 <= y + j < ny) / len(disk)
    return (np.tanh(beta * eta) + np.tanh(beta * (a - eta))) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta))), a


def k_smooth(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.transform import get_smooth_fn
    shape, radius = tuple(case["shape"]), case["radius"]
    n = int(np.prod(shape))
    step = 1 if n <= 9 else (2 ** n) // (150 if ck.tier == "quick" else 1500) | 1
    prm = [(1.0, 0.5), (8.0, 0.5), (20.0, 0.3), (3.0, 0.7)]
    for k, rho in enumerate(designs(shape, step)):
        for beta, eta in prm if k % 4 == 0 else prm[:2]:
            fn = get_smooth_fn(beta, radius, eta) if eta != 0.5 else get_smooth_fn(beta, radius)
            keep = rho.copy()
            got = np.asarray(fn(jnp.array(rho) if k % 2 else rho))
            want, a = smooth_ref(rho, beta, radius, eta)
            ck.state(shape, radius, rho.tobytes(), beta, eta)
            ck.trans()
            ck.close(got, want, f"smoothing of {rho.tolist()} beta {beta} radius {radius} eta {eta}", TOL, key="smooth")
            ck.check(np.all(got > -1e-9) and np.all(got < 1 + 1e-9), "smoothed design leaves [0, 1]", key="smooth range")
            ck.check(np.array_equal(rho, keep), "design modified", key="smooth argument")
            if k % 16 == 0:
                for nm, f in FORMS:
                    if nm not in BINARY or set(rho.ravel()) <= {0.0, 1.0}:
                        ck.close(np.asarray(fn(f(rho))), got, f"smoothing of {rho.tolist()} as {nm}", 1e-5, key=f"smooth form {nm}")
                        ck.trans()
            ck.trace()
            ck.outcome(np.round(got, 5).tobytes())
            if k % (40 if n <= 9 else 75) == 0:
                J = np.asarray(jax.jacobian(fn)(jnp.array(rho))).reshape(n, n)
                h = 1e-6
                fd = np.stack([(smooth_ref(rho + h * np.eye(n)[i].reshape(shape), beta, radius, eta)[0] - smooth_ref(rho - h * np.eye(n)[i].reshape(shape), beta, radius, eta)[0]).ravel() / (2 * h) for i in range(n)], axis=1)
                ck.close(J, fd, f"derivative of the smoothing, radius {radius}", 1e-5, key="smooth gradient")
                ck.trans()
    ck.sample({"shape": shape, "radius": radius})


def k_symmetry(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.transform import get_symmetry_fn
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    square = shape[0] == shape[1]
    maps = {"x": lambda r: r[::-1], "y": lambda r: r[:, ::-1], "p": lambda r: r.T, "n": lambda r: r[::-1, ::-1].T}
    for ox, oy, dp, dn, avg in itertools.product((False, True), repeat=5):
        if (dp or dn) and (not square or ox != oy):
            continue
        kw = dict(ortho_x=ox, ortho_y=oy, diag_p=dp, diag_n=dn, avg=avg)
        fn = get_symmetry_fn(**kw)
        flags = [c for c, f in zip("xypn", (ox, oy, dp, dn)) if f]
        if n <= 9:
            ds = list(designs(shape, 1 if n < 9 or ck.tier != "quick" else 3))
        else:
            ds = list(np.eye(n).reshape((n,) + shape)) + [((np.arange(n) * 7 % 11) / 11).reshape(shape)]
        for k, rho in enumerate(ds):
            x = jnp.array(rho)
            y = np.asarray(fn(x))
            ck.state(shape, str(kw), rho.tobytes())
            ck.trans()
            label = f"symmetries {flags or 'none'} avg={avg} of {rho.tolist()}"
            ck.check(y.shape == shape, f"{label}: shape {y.shape}", key="symmetry shape")
            for c in flags:
                ck.close(y, maps[c](y), f"{label}: result is not symmetric under {c}", TOL, key=f"not symmetric {c}")
            # a design that is symmetric already stays as it is (hence the transform is idempotent)
            ck.close(np.asarray(fn(jnp.array(y))), y, f"{label}: symmetric design changed", TOL, key="idempotent")
            if not flags:
                ck.close(y, rho, f"{label}: changed", TOL, key="identity")
            if k % 4 == 0:
                for nm, f in FORMS:
                    if nm not in BINARY or set(rho.ravel()) <= {0.0, 1.0}:
                        ck.close(np.asarray(fn(f(rho))), y, f"{label} as {nm}", 1e-5, key=f"symmetry form {nm}")
                        ck.trans()
            # what the result consists of
            w = rho.copy()
            if oy:
                h = shape[1] // 2
                if avg:
                    w = (w + w[:, ::-1]) / 2
                else:
                    for j in range(h):
                        w[:, shape[1] - 1 - j] = w[:, j]
            if ox:
                h = shape[0] // 2
                if avg:
                    w = (w + w[::-1]) / 2
                else:
                    for i in range(h):
                        w[shape[0] - 1 - i] = w[i]
            if dp:
                w = (w + w.T) / 2
            if dn:
                w = (w + w[::-1, ::-1].T) / 2
            ck.close(y, w, label, TOL, key="symmetry value")
            ck.check(np.array_equal(np.asarray(x), rho), "design modified", key="symmetry argument")
            ck.trace()
            ck.outcome(y.tobytes())
            if k == 0:
                J = np.asarray(jax.jacobian(fn)(x)).reshape(n, n)
                M = np.stack([np.asarray(fn(jnp.array(e.reshape(shape)))).ravel() for e in np.eye(n)], axis=1)
                ck.close(J, M, f"derivative of symmetries {flags} avg={avg}", TOL, key="symmetry gradient")
    ck.sample({"shape": shape})


def k_mask(case, ck):
    import jax
    import jax.numpy as jnp
    import simphox  # noqa
    from simphox.transform import get_mask_fn
    from simphox.utils import Box
    shape, d = (4, 5), 0.5
    boxes = [(x0, y0, x1, y1) for x0 in range(-1, 4) for x1 in range(x0 + 1, 6) for y0 in range(-1, 5) for y1 in range(y0 + 1, 7)]
    init = np.linspace(0.1, 0.9, 20).reshape(shape)
    rho = np.cos(np.arange(20)).reshape(shape)

    def sel(b):
        m = np.zeros(shape, bool)
        m[max(b[0], 0):max(b[2], 0), max(b[1], 0):max(b[3], 0)] = True
        return m

    def box(b):
        return Box(((b[2] - b[0]) * d, (b[3] - b[1]) * d), spacing=d, min=(b[0] * d, b[1] * d))
    few = boxes[::17]
    todo = [(b,) for b in boxes] + list(itertools.product(few, few)) + [(a, b, c) for a, b, c in zip(boxes[::5], boxes[1::5], boxes[2::5])]
    for k, bs in enumerate(todo):
        if k % case["parts"] != case["part"]:
            continue
        m = np.any([sel(b) for b in bs], axis=0)
        for as_list in ((False, True) if len(bs) == 1 else (True,)):
            fn = get_mask_fn(init if k % 2 else jnp.array(init), [box(b) for b in bs] if as_list else box(bs[0]))
            ck.state(bs, as_list)
            ck.close(np.asarray(fn(jnp.array(rho))), np.where(m, rho, init), f"mask of boxes {bs} (pixels)", TOL, key="mask")
            ck.trans()
            if k % 8 == case["part"]:
                for nm, f in FORMS:
                    fn = get_mask_fn(f(np.round(init)), [box(b) for b in bs] if as_list else box(bs[0]))
                    ck.close(np.asarray(fn(jnp.array(rho))), np.where(m, rho, np.round(init)), f"mask of boxes {bs} (pixels), initial design as {nm}", 1e-5, key=f"mask form {nm}")
                    ck.trans()
        if k % 16 == case["part"]:
            J = np.asarray(jax.jacobian(fn)(jnp.array(rho))).reshape(20, 20)
            ck.close(J, np.diag(m.ravel().astype(float)), f"derivative of the mask of {bs}", TOL, key="mask gradient")
            ck.trans()
        ck.trace()
        ck.outcome(m.tobytes())
