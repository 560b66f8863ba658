"""Boxes keep their geometry through every sequence of moves, and cross sections are painted from them as documented."""
import itertools
from fractions import Fraction as Q
import numpy as np

ASSUMPTIONS = ["exact binary coordinates, or decimal multiples of the spacing", "cross sections whose boxes have no centre halfway between two pixels"]


def BOUNDS(tier):
    return (f"all sequences of <= {2 if tier == 'quick' else 3} moves out of 26 of a box, pixel regions after each; all boxes of <= 6 pixels around an array x decimal spacings; "
            "all slice shifts; cross sections: waveguide sizes x heights x substrate x rib x gap x perturbing blocks x separations")


def cases(tier, seed):
    d = 2 if tier == "quick" else 3
    out = [{"kind": "moves", "start": s, "depth": d} for s in range(6)]
    out += [{"kind": "pixels", "spacing": s} for s in (1.0, 0.1, 0.02, 0.3, 0.07, 0.025, 1 / 3)]
    out += [{"kind": "shift"}]
    out += [{"kind": "block", "gap": g, "mode": m} for g in (0.0, 0.5, 1.0, 1.5) for m in ("none", "lateral", "vertical")]
    return out


def run(case, ck):
    globals()["k_" + case["kind"]](case, ck)


class M:
    """Exact model of a box."""

    def __init__(self, size, lo):
        self.size, self.min = [Q(x) for x in size], [Q(x) for x in lo]

    max = property(lambda s: [a + b for a, b in zip(s.min, s.size)])
    center = property(lambda s: [a + b / 2 for a, b in zip(s.min, s.size)])

    def move(self, d):
        self.min = [a + b for a, b in zip(self.min, d)]


OTHER = ((2.0, 0.5), (1.25, -0.75))  # size, min of the box that the moves refer to


def moves(other, om):
    """name -> (operation on the real box, operation on the model)"""
    ops = {}
    for dx, dy in ((0.5, 0), (-1.25, 2.0), (0, -0.75)):
        ops[f"translate {dx} {dy}"] = (lambda b, dx=dx, dy=dy: b.translate(dx, dy), lambda m, dx=dx, dy=dy: m.move((Q(dx), Q(dy))))
    ops["translate dy"] = (lambda b: b.translate(dy=1.5), lambda m: m.move((0, Q(1.5))))
    ops["align box"] = (lambda b: b.align(other), lambda m: m.move([a - c for a, c in zip(om.center, m.center)]))
    ops["align point"] = (lambda b: b.align((3.5, -0.25)), lambda m: m.move([Q(3.5) - m.center[0], Q(-0.25) - m.center[1]]))
    for ax, nm in ((0, "halign"), (1, "valign")):
        for first, opp in itertools.product((True, False), repeat=2):
            kw = {"left" if ax == 0 else "bottom": first, "opposite": opp}

            def real(b, nm=nm, kw=kw):
                return getattr(b, nm)(other, **kw)

            def model(m, ax=ax, first=first, opp=opp):
                mine = m.min[ax] if first else m.max[ax]
                # facing edges when opposite, the same edges otherwise
                target = (om.max[ax] if first else om.min[ax]) if opp else (om.min[ax] if first else om.max[ax])
                d = [Q(0), Q(0)]
                d[ax] = target - mine
                m.move(d)
            ops[f"{nm} {first} {opp}"] = (real, model)
        for v in (0.75, 2):
            for first in (True, False):
                kw = {"left" if ax == 0 else "bottom": first}

                def real(b, nm=nm, kw=kw, v=v):
                    return getattr(b, nm)(v, **kw)

                def model(m, ax=ax, first=first, v=v):
                    d = [Q(0), Q(0)]
                    d[ax] = Q(v) - (m.min[ax] if first else m.max[ax])
                    m.move(d)
                ops[f"{nm} at {v} {first}"] = (real, model)
        ops[f"{nm} default"] = (lambda b, nm=nm: getattr(b, nm)(other), lambda m, ax=ax: m.move([om.max[ax] - m.min[ax] if a == ax else Q(0) for a in (0, 1)]))
    ops["copy"] = (lambda b: b.copy, lambda m: None)
    ops["copy moved"] = (lambda b: (b.copy.translate(5, 5), b)[1], lambda m: None)
    return ops


STARTS = [((1.0, 1.0), (0.0, 0.0)), ((2.5, 0.5), (0.25, 1.0)), ((0.75, 3.0), (-1.0, 2.25)), (3.0, (0.0, 0.0)), ((4.0, 2.0), (1.0, 1.0)), ((0.0, 2.0), (-0.5, -2.0))]


def k_moves(case, ck):
    from simphox.utils import Box, SILICON
    size, lo = STARTS[case["start"]]
    msize = size if isinstance(size, tuple) else (size, 0)
    om = M(*OTHER)
    ob = Box(OTHER[0], min=OTHER[1])
    ops = moves(ob, om)
    for n in range(case["depth"] + 1):
        for word in itertools.product(ops, repeat=n):
            b, m = Box(size, material=SILICON, spacing=0.25, min=lo), M(msize, lo)
            for w in word:
                r = ops[w][0](b)
                ck.check(w == "copy" or r is b, f"{w} returns the box", key="chaining")
                if w == "copy":
                    ck.check(r is not b, "a copy is another box", key="copy")
                    b = r
                ops[w][1](m)
                ck.trans()
            ck.state(case["start"], word)
            label = f"box {STARTS[case['start']]} after {word}"
            ck.check([Q(x) for x in b.min] == m.min and [Q(x) for x in b.max] == m.max and [Q(x) for x in b.center] == m.center and [Q(x) for x in b.size] == m.size,
                     f"{label}: from {b.min} to {b.max}, size {b.size} instead of {[float(x) for x in m.min]} to {[float(x) for x in m.max]}", key="geometry")
            ck.check(b.eps == SILICON.eps and b.spacing == 0.25, f"{label}: material or spacing lost", key="material")
            ck.check(ob.min == OTHER[1] and tuple(ob.size) == OTHER[0], f"{label}: the other box moved", key="other box")
            lo_i, hi_i = [int(x / Q(0.25)) for x in m.min], [int(x / Q(0.25)) for x in m.max]
            ck.check(tuple(b.min_i) == tuple(lo_i) and tuple(b.max_i) == tuple(hi_i) and tuple(b.shape) == (hi_i[0] - lo_i[0], hi_i[1] - lo_i[1]), f"{label}: pixels {b.min_i} to {b.max_i}", key="pixels")
            arr = np.zeros((20, 16))
            want = np.zeros((20, 16))
            want[max(lo_i[0], 0):max(hi_i[0], 0), max(lo_i[1], 0):max(hi_i[1], 0)] = 1
            ck.close(b.mask(arr), want, f"mask of the {label}", key="mask")
            ck.check(not arr.any(), "mask modified its argument", key="mask argument")
            ck.trace()
            ck.outcome(tuple(m.min))
    ck.sample({"start": STARTS[case["start"]]})


def k_pixels(case, ck):
    """Boxes whose edges are multiples of the spacing cover exactly those pixels."""
    from simphox.utils import Box
    d = case["spacing"]
    for x0, w in itertools.product(range(-3, 40), (0, 1, 2, 5, 7, 12, 33)):
        y0, h = (x0 * 7) % 11 - 2, (w * 3) % 10
        b = Box((w * d, h * d), spacing=d, min=(x0 * d, y0 * d))
        ck.state(d, x0, w)
        ck.trans()
        ck.check(tuple(b.min_i) == (x0, y0) and tuple(b.max_i) == (x0 + w, y0 + h) and tuple(b.shape) == (w, h), f"box of {w}x{h} pixels of {d} at {x0, y0}: {b.min_i} to {b.max_i}", key="pixel rounding")
        arr = np.zeros((30, 12))
        want = arr.copy()
        want[max(x0, 0):max(x0 + w, 0), max(y0, 0):max(y0 + h, 0)] = 1
        ck.close(b.mask(arr), want, f"mask of a box of {w}x{h} pixels of {d} at {x0, y0}", key="mask")
        got = np.zeros((30, 12))
        got[b.slice] = 1
        ck.close(got, want, "slice", key="slice")
        ck.trace()
        ck.outcome(x0, w)


def k_shift(case, ck):
    from simphox.utils import shift_slice
    items = [3, 0, slice(1, 4), slice(0, 2), slice(None), slice(2, None), slice(None, 3), slice(np.int64(1), np.int64(3)) if False else slice(2, 2)]
    for n in (1, 2, 3):
        for tup in itertools.product(items, repeat=n):
            for axis, shift in itertools.product(range(n), (-1, 0, 1, 2)):
                got = shift_slice(tup, shift, axis)
                want = list(tup)
                t = tup[axis]
                if isinstance(t, int):
                    want[axis] = t + shift
                elif t.start is not None and t.stop is not None:
                    want[axis] = slice(t.start + shift, t.stop + shift)
                ck.state(str(tup), axis, shift)
                ck.trans()
                ck.check(isinstance(got, tuple) and got == tuple(want), f"shift of {tup} by {shift} along {axis}: {got}", key="shift_slice")
                ck.trace()
                ck.outcome(str(got))
            ck.check(shift_slice(tup) == shift_slice(tup, 1, 0), "default shift", key="shift_slice")


def paint(eps, box, v, d):
    """Same rule as any other region (G02): whole pixels around the rounded centre; None if the centre is halfway."""
    rng = []
    for a in range(2):
        c, w = box.center[a] / d, box.size[a] / d
        if c % 1 == Q(1, 2) or w % 1 == Q(1, 2):
            return False
        c, w = int((c + Q(1, 2)) // 1), int((w + Q(1, 2)) // 1)
        lo = c - w // 2
        hi = lo + w
        rng.append(slice(max(lo, 0), max(hi, 0)) if w else slice(c, c + 1))
    eps[rng[0], rng[1]] = v
    return True


def k_block(case, ck):
    from simphox.grid import Grid
    from simphox.mode import ModeLibrary
    from simphox.utils import Box, Material
    gap, mode = case["gap"], case["mode"]
    wm, bm = Material("w", 12.0), Material("b", 4.0)
    d = Q(1, 4)
    lib = 0
    for n, wsize, wh, sub, rib, bsize, sep in itertools.product(
            ((24, 16), (24, 17)), ((1.0, 0.5), (1.5, 1.0), (0.5, 1.5)), (None, 0.75, 1.5), ((1.0, 0.0), (2.0, 0.75)), (0.0, 0.5),
            ((0.5, 0.5), (1.0, 0.25)), (0.0, 0.25, (0.5, 0.25), (0.0, 1.0))):
        if mode == "none" and (bsize != (0.5, 0.5) or sep != 0.0):
            continue
        size = [Q(n[0]) * d, Q(n[1]) * d]
        sub_eps, sub_h = sub
        eps = np.ones(n)
        if sub_h > 0:
            eps[..., :int(Q(sub_h) / d)] = sub_eps
        else:
            eps[:] = sub_eps
        if rib > 0:
            eps[..., int(Q(sub_h) / d):int((Q(rib) + Q(sub_h)) / d)] = 12.0
        wg = M(wsize, (0, 0))
        wg.move([size[0] / 2 - wg.center[0], size[1] / 2 - wg.center[1]])
        if wh is not None:
            wg.move((Q(0), Q(wh) - wg.min[1]))
        height = wg.min[1]
        shift = Q(gap) / 2 + wg.size[0] / 2 if gap else Q(0)
        wgs = [M(wsize, wg.min), M(wsize, wg.min)]
        wgs[0].move((-shift, 0))
        wgs[1].move((shift, 0))
        s2 = sep if isinstance(sep, tuple) else (sep, sep)
        blocks = []
        if mode == "lateral":
            blocks = [M(bsize, (wgs[0].min[0] - Q(bsize[0]) - Q(s2[0]), height)), M(bsize, (wgs[1].max[0] + Q(s2[1]), height))]
        if mode == "vertical":
            blocks = [M(bsize, (w.center[0] - Q(bsize[0]) / 2, w.max[1] + Q(s))) for w, s in zip(wgs, s2)]
        ok = all([paint(eps, b, 12.0, d) for b in wgs] + [paint(eps, b, 4.0, d) for b in blocks])
        if not ok:
            ck.count("centre halfway between pixels")
            continue
        if any(b.min[0] < 0 or b.min[1] < 0 or b.max[0] > size[0] or b.max[1] > size[1] for b in wgs + blocks):
            ck.count("outside")
            continue
        for start in ((0.0, 0.0), (3.0, -1.0)):
            w = Box(wsize, material=wm, min=start)
            b = Box(bsize, material=bm, min=start) if mode != "none" else None
            g = Grid((float(size[0]), float(size[1])), 0.25)
            kw = dict(wg_height=wh, sub_eps=sub_eps, sub_height=sub_h, gap=gap, block=b, sep=sep, vertical=mode == "vertical", rib_y=rib)
            r = g.block_design(w, **kw)
            ck.trans()
            ck.state(n, wsize, wh, sub, rib, bsize, sep, start)
            ck.close(g.eps, eps, f"cross section {n} pixels, waveguide {wsize} at {wh}, substrate {sub}, rib {rib}, gap {gap}, {mode} block {bsize} separated by {sep}, boxes made at {start}", 1e-12, key="block design")
            ck.check(r is g, "block_design returns the grid", key="chaining")
            ck.check(b is None or b.min == start, "the perturbing block was moved", key="block moved")
            if b is not None or lib % 9 == 0:
                g2 = g.block_design(w, **kw) if start == (0.0, 0.0) else g  # the same boxes again
                ck.close(g2.eps, eps, "cross section built again from the same boxes", 1e-12, key="block design again")
            if lib % 40 == 0:
                kw["coupling_gap"] = kw.pop("gap")
                L = ModeLibrary.from_block_design((float(size[0]), float(size[1])), 0.25, Box(wsize, material=wm), num_modes=1, wavelength=1.55, **kw)
                ck.close(L.eps, eps, "cross section of a mode library", 1e-12, key="library block design")
                ck.check(L.solver.wavelength == 1.55 and L.max_num_modes == 1, "library wavelength and number of modes", key="library block design")
                ck.trans()
            lib += 1
            ck.trace()
            ck.outcome(eps.tobytes())
