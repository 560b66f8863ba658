"""Plots show the values asked for, at their place: every pixel of every plot of small fields, permittivities and modes."""
import itertools
import numpy as np

TOL = 1e-9
ASSUMPTIONS = ["matplotlib plots (holoviews and k3d are not installed); what is drawn is read back from the axes pixel by pixel",
               "equal spacing along both axes, as the plotting functions document"]


def BOUNDS(tier):
    return ("all fields over {-2, 0, 0.5, 3} of 1x1, 2x1, 1x2 and a stride of 2x2, generic fields of up to 5x4 x spacing x permittivity overlay x colour range; "
            "all 1D arrays over the same alphabet of <= 3; all combinations of colour maps, transparency, colours, units and label rotation; every mode, component, field and option of mode libraries of all 1D cross sections of 6 pixels (stride) and of 2D ones")


def cases(tier, seed):
    out = [{"kind": "maps", "shape": s} for s in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (5, 4))]
    out += [{"kind": "lines", "n": n} for n in (1, 2, 3, 6)]
    out += [{"kind": "options", "sub": s} for s in ("maps", "lines")]
    step = 5 if tier == "quick" else 1
    out += [{"kind": "modes", "code": c, "ndim": 1} for c in range(1, 64, step)]
    out += [{"kind": "modes", "code": c, "ndim": 2} for c in ((1, 11, 37, 63) if tier == "quick" else range(1, 64, 4))]
    return out


def run(case, ck):
    import matplotlib
    matplotlib.use("Agg")
    globals()["k_" + case["kind"]](case, ck)


ALPHABET = (-2.0, 0.0, 0.5, 3.0)


def arrays(shape):
    n = int(np.prod(shape))
    if n <= 4:
        for i, w in enumerate(itertools.product(ALPHABET, repeat=n)):
            if n < 4 or i % 5 == 0:
                yield np.array(w).reshape(shape)
    k = np.arange(n)
    yield ((k * 7) % n - n / 3.0).reshape(shape)
    yield (1.0 + k * 0.25).reshape(shape)
    yield -(1.0 + k * k * 0.5).reshape(shape)


def maps_of(ax):
    """Drawn colour maps, from the bottom up."""
    from matplotlib.collections import QuadMesh
    arts = [a for a in ax.get_children() if a in list(ax.images) or isinstance(a, QuadMesh)]
    return sorted(arts, key=lambda a: a.get_zorder())


def drawn(ax, art, shape, d):
    """The value drawn at the middle of every pixel."""
    from matplotlib.backend_bases import MouseEvent
    out = np.full(shape, np.nan)
    for i, j in np.ndindex(*shape):
        x, y = ax.transData.transform(((i + 0.5) * d, (j + 0.5) * d))
        v = art.get_cursor_data(MouseEvent("motion_notify_event", ax.figure.canvas, x, y))
        if v is not None and not np.ma.is_masked(v):
            out[i, j] = float(np.asarray(v).ravel()[0])
    return out


def check_map(ck, ax, art, want, d, msg, **info):
    ck.close(drawn(ax, art, want.shape, d), want, f"{msg}: drawn values", TOL, **info)
    ck.close(np.array(sorted(ax.get_xlim()) + sorted(ax.get_ylim())), np.array([0, want.shape[0] * d, 0, want.shape[1] * d]), f"{msg}: extent", 1e-9, **info)
    ck.check(ax.get_xlim()[0] <= ax.get_xlim()[1] and ax.get_ylim()[0] <= ax.get_ylim()[1], f"{msg}: axes point the wrong way", **info)


def check_field_colours(ck, art, vmax, msg, **info):
    ck.close(np.array([float(art.norm(v)) for v in (-vmax, -vmax / 2, 0, vmax / 2, vmax)]), np.array([0, 0.25, 0.5, 0.75, 1]), f"{msg}: colours are not centred at zero", 1e-9, **info)


def k_maps(case, ck):
    import matplotlib.pyplot as plt
    from simphox.viz import plot_eps_2d, plot_field_2d, plot_power_2d
    shape = tuple(case["shape"])
    fig = plt.figure(figsize=(4, 4))
    eps = 1.0 + (np.arange(np.prod(shape)) * 5 % 7).reshape(shape)
    for f in arrays(shape):
        for spacing, overlay in ((None, False), (0.5, True), (0.1, False), (0.25, True)):
            d = spacing or 1
            info = dict(field=f.tolist(), spacing=spacing, overlay=overlay)
            for vmax in (None, 1.5):
                for kind in ("field", "power", "eps"):
                    if kind == "eps" and vmax is not None:
                        continue
                    ck.state(f.tolist(), spacing, overlay, vmax, kind)
                    ck.trans()
                    ck.trace()
                    fig.clf()
                    ax = fig.add_subplot(1, 1, 1)
                    f0, e0 = f.copy(), eps.copy()
                    msg = f"plot of {kind}"
                    if kind == "field":
                        plot_field_2d(ax, f0, eps=e0 if overlay else None, spacing=spacing, vmax=vmax)
                        want = f
                    elif kind == "power":
                        f0 = np.abs(f)
                        plot_power_2d(ax, f0, eps=e0 if overlay else None, spacing=spacing, vmax=vmax)
                        want = np.abs(f)
                    else:
                        f0 = np.abs(f) + 1
                        plot_eps_2d(ax, f0, spacing=spacing)
                        want = np.abs(f) + 1
                    arts = maps_of(ax)
                    if not ck.check(len(arts) == 1 + (overlay and kind != "eps"), f"{msg}: wrong number of layers", **info):
                        continue
                    check_map(ck, ax, arts[-1], want, d, msg, **info)
                    if len(arts) == 2:
                        check_map(ck, ax, arts[0], eps, d, f"{msg}: permittivity", **info)
                        ck.check(0 < arts[-1].get_alpha() < 1, f"{msg}: the permittivity is hidden", **info)
                    if kind == "field" and (np.any(f) or vmax):
                        check_field_colours(ck, arts[-1], vmax or np.max(np.abs(f)), msg, **info)
                    if kind == "power" and (np.any(f) or vmax) and np.ptp(want) > 0:
                        ck.close(arts[-1].get_clim()[1], vmax or np.max(want), f"{msg}: brightest value", 1e-9, **info)
                    ck.check(bool(ax.get_xlabel()) == bool(spacing) == bool(ax.get_ylabel()), f"{msg}: axis labels without a spacing, or none with one", **info)
                    if spacing:
                        ck.check("x" in ax.get_xlabel() and "y" in ax.get_ylabel(), f"{msg}: axis labels", **info)
                    ck.close(f0, want if kind != "field" else f, f"{msg}: the array passed in", 0, **info)
                    ck.close(e0, eps, f"{msg}: the permittivity passed in", 0, **info)
                    ck.outcome(kind, np.round(want, 6).tolist(), d)
    plt.close(fig)


def line_of(ax):
    return [(np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)) for line in ax.lines]


def k_lines(case, ck):
    import matplotlib.pyplot as plt
    from simphox.viz import plot_eps_1d, plot_field_1d
    n = case["n"]
    fig = plt.figure(figsize=(4, 4))
    eps = 1.0 + np.arange(n) * 5 % 7
    for f in arrays((n,)):
        for spacing, overlay, cplx in itertools.product((None, 0.5, 0.1), (False, True), (False, True)):
            info = dict(field=f.tolist(), spacing=spacing, overlay=overlay)
            ck.state(f.tolist(), spacing, overlay, cplx)
            ck.trans(2)
            ck.trace()
            d = spacing or 1
            fig.clf()
            ax = fig.add_subplot(1, 1, 1)
            g = f * (1 - 2j) if cplx else f.copy()
            plot_field_1d(ax, g, "name of the field", eps=eps.copy() if overlay else None, spacing=spacing)
            lines = line_of(ax)
            if ck.check(len(lines) == 1, "line plot: number of lines", **info):
                ck.close(np.array(lines[0]), np.array([np.arange(n) * d, f]), "line plot of a field", TOL, **info)
            if spacing:
                ck.check("name of the field" in ax.get_ylabel() and "x" in ax.get_xlabel(), "line plot: labels", **info)
            others = [a for a in fig.axes if a is not ax]
            if ck.check(len(others) == int(overlay), "line plot: axes for the permittivity", **info) and overlay:
                lines = line_of(others[0])
                ck.check(len(lines) == 1, "line plot: permittivity lines", **info) and \
                    ck.close(np.array(lines[0]), np.array([np.arange(n) * d, eps]), "line plot of the permittivity under a field", TOL, **info)
            fig.clf()
            ax = fig.add_subplot(1, 1, 1)
            plot_eps_1d(ax, f + 3, spacing=spacing)
            lines = line_of(ax)
            ck.check(len(lines) == 1, "permittivity plot: number of lines", **info) and \
                ck.close(np.array(lines[0]), np.array([np.arange(n) * d, f + 3]), "line plot of the permittivity", TOL, **info)
            ck.outcome(f.tolist(), d)
    plt.close(fig)


def k_options(case, ck):
    """Every combination of the drawing options: each one applies to its own layer or axis, and changes no value."""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from simphox.viz import plot_eps_1d, plot_eps_2d, plot_field_1d, plot_field_2d, plot_power_2d
    shape = (3, 2)
    f = np.arange(6.0).reshape(shape) - 1.5
    eps = 1.0 + (np.arange(6) * 5 % 7).reshape(shape)
    fig = plt.figure(figsize=(4, 4))

    def axes():
        fig.clf()
        ck.trans()
        ck.trace()
        return fig.add_subplot(1, 1, 1)

    if case["sub"] == "maps":
        for kind, cmap, mat_cmap, alpha, overlay in itertools.product(("field", "power", "eps"), ("viridis", "RdBu", None), ("gray", "plasma", None), (0.3, 1, None), (True, False)):
            if kind == "eps" and (mat_cmap or alpha or overlay):
                continue
            opts = {k: v for k, v in (("cmap", cmap), ("mat_cmap", mat_cmap), ("alpha", alpha)) if v is not None}
            info = dict(kind=kind, overlay=overlay, **opts)
            ck.state(kind, cmap, mat_cmap, alpha, overlay)
            ax = axes()
            if kind == "eps":
                plot_eps_2d(ax, eps, spacing=0.5, **opts)
            else:
                (plot_field_2d if kind == "field" else plot_power_2d)(ax, f if kind == "field" else f ** 2, eps=eps if overlay else None, spacing=0.5, **opts)
            arts = maps_of(ax)
            if not ck.check(len(arts) == 1 + overlay, "plot options: layers", **info):
                continue
            ck.check(cmap is None or arts[-1].get_cmap().name == cmap, "plot options: colour map", **info)
            ck.check(alpha is None or arts[-1].get_alpha() == alpha, "plot options: transparency", **info)
            if overlay:
                ck.check(mat_cmap is None or arts[0].get_cmap().name == mat_cmap, "plot options: colour map of the permittivity", **info)
                check_map(ck, ax, arts[0], eps, 0.5, "plot options: permittivity", **info)
            check_map(ck, ax, arts[-1], {"field": f, "power": f ** 2, "eps": eps}[kind], 0.5, "plot options", **info)
            ck.outcome(kind, arts[-1].get_cmap().name, arts[-1].get_alpha())
    else:
        g, e = f.ravel(), eps.ravel()
        for color, eps_color, units, overlay, spacing in itertools.product(("green", "k", None), ("orange", "c", None), ("nm", None), (True, False), (0.5, None)):
            opts = {k: v for k, v in (("color", color), ("eps_color", eps_color), ("units", units)) if v is not None}
            info = dict(overlay=overlay, spacing=spacing, **opts)
            ck.state(color, eps_color, units, overlay, spacing)
            ax = axes()
            plot_field_1d(ax, g, "E", eps=e if overlay else None, spacing=spacing, **opts)
            todo = [(ax, color, g)] + [(a, eps_color, e) for a in fig.axes if a is not ax]
            ck.check(len(todo) == 1 + overlay, "plot options: axes", **info)
            for a, c, want in todo:
                ck.check(len(a.lines) == 1 and (c is None or to_rgba(a.lines[0].get_color()) == to_rgba(c)), "plot options: colour of a line", **info)
                ck.close(line_of(a)[0][1], want, "plot options: line", TOL, **info)
            ck.check(spacing is None or units is None or units in ax.get_xlabel(), "plot options: units", label=ax.get_xlabel(), **info)
            for rotation in (0, 45, None):
                ax = axes()
                opts = {k: v for k, v in (("color", color), ("units", units), ("axis_label_rotation", rotation)) if v is not None}
                plot_eps_1d(ax, e, spacing=spacing, **opts)
                ck.check(color is None or to_rgba(ax.lines[0].get_color()) == to_rgba(color), "plot options: colour of a line", **info)
                ck.check(spacing is None or units is None or units in ax.get_xlabel(), "plot options: units", label=ax.get_xlabel(), **info)
                ck.check(spacing is None or rotation is None or ax.yaxis.get_label().get_rotation() == rotation, "plot options: rotation of the label", rotation=rotation, **info)
                ck.close(line_of(ax)[0][1], e, "plot options: line", TOL, **info)
            ck.outcome(color, eps_color, units, overlay, spacing)
    plt.close(fig)


def k_modes(case, ck):
    import matplotlib.pyplot as plt
    from simphox.mode import ModeLibrary, ModeSolver
    from checks.M01 import power
    code, ndim = case["code"], case["ndim"]
    bits = np.array([code >> i & 1 for i in range(6)])
    eps = 2.0 + 9.0 * (bits if ndim == 1 else np.pad(bits.reshape(3, 2), ((1, 2), (1, 1))))
    d = 0.2
    solver = ModeSolver(tuple(np.array(eps.shape) * d), d if ndim == 1 else (d, d), eps=eps, wavelength=1.55)
    lib = ModeLibrary(solver, 3)
    fig = plt.figure(figsize=(4, 4))
    for idx, include_n in itertools.product(range(lib.m), (True, False)):
        e, h = np.asarray(lib.e(idx)).reshape((3,) + eps.shape), np.asarray(lib.h(idx)).reshape((3,) + eps.shape)
        share = np.sum(np.abs(h[1]) ** 2) / np.sum(np.abs(h[:2]) ** 2)
        sz = np.abs(np.real(power(np.asarray(lib.e(idx)), np.asarray(lib.h(idx))))).reshape(eps.shape)
        plots = [("power", None, None)] + [("field", a, u) for a in (0, 1, 2, "x", "y", "z") for u in (True, False)]
        for kind, axis, use_h in plots:
            info = dict(idx=idx, kind=kind, axis=axis, use_h=use_h, include_n=include_n)
            ck.state(idx, kind, axis, use_h, include_n)
            ck.trans()
            ck.trace()
            fig.clf()
            ax = fig.add_subplot(1, 1, 1)
            if kind == "power":
                lib.plot_power(ax, idx, title="Some title", include_n=include_n)
                want = sz
            else:
                lib.plot_field(ax, idx, axis=axis, use_h=use_h, title="Some title", include_n=include_n)
                want = (h if use_h else e)[{"x": 0, "y": 1, "z": 2}.get(axis, axis)].real
            scale = max(np.max(np.abs(want)), 1e-30)
            title = ax.get_title()
            ck.check("Some title" in title, "mode plot: title", **info)
            n = float(np.real(lib.betas[idx]) / solver.k0)
            ck.check((f"{n:.4f}" in title) == include_n, "mode plot: effective index in the title", title=title, **info)
            if include_n:
                ck.check(f"n_{idx + 1}" in title, "mode plot: number of the mode in the title", title=title, **info)
            if ndim == 1:
                lines, others = line_of(ax), [line_of(a) for a in fig.axes if a is not ax]
                if ck.check(len(lines) == 1 and len(others) == 1 and len(others[0]) == 1, "mode plot: lines", **info):
                    ck.close(lines[0][0], np.arange(6) * d, "mode plot: positions", TOL, **info)
                    ck.close(lines[0][1] / scale, want / scale, "mode plot: values", 1e-7, **info)
                    ck.close(np.array(others[0][0]), np.array([np.arange(6) * d, eps]), "mode plot: permittivity", TOL, **info)
                label = ax.get_ylabel()
            else:
                arts = maps_of(ax)
                if ck.check(len(arts) == 2, "mode plot: layers", **info):
                    if scale > 1e-30:
                        ck.close(drawn(ax, arts[1], eps.shape, d) / scale, want / scale, "mode plot: values", 1e-7, **info)
                    check_map(ck, ax, arts[0], eps, d, "mode plot: permittivity", **info)
                    if kind == "field" and scale > 1e-30:
                        check_field_colours(ck, arts[1], scale, "mode plot", **info)
                texts = [t.get_text() for t in ax.texts]
                if abs(share - 0.5) > 1e-3:
                    want_pol = f"{'TE' if share > 0.5 else 'TM'}[{max(share, 1 - share):.2f}]"
                    ck.check(want_pol in texts, f"mode plot: polarization is {texts}, not {want_pol}", "mode plot: polarization", **info)
                label = " ".join(texts)
            if kind == "field":
                name = f"{'h' if use_h else 'e'}_{axis if isinstance(axis, str) else 'xyz'[axis]}"
                ck.check(name in label, f"mode plot: label {label} instead of {name}", "mode plot: label", **info)
            ck.outcome(kind, axis, use_h, np.round(want / scale, 4).tolist())
    ax = fig.add_subplot(1, 1, 1)
    for fn in (lambda: lib.plot_power(ax, lib.m), lambda: lib.plot_field(ax, lib.m)):
        ck.raises(fn, "plot of a mode that does not exist", (ValueError, IndexError))
    for axis in (3, "w", -1):
        ck.raises(lambda: lib.plot_field(ax, 0, axis=axis), "plot of a component that does not exist", (ValueError, IndexError), axis=axis)
    plt.close(fig)
