"""Wiring of the architectures."""
import itertools
import numpy as np
from mc import refc

ASSUMPTIONS = ["architectures are compared as wiring diagrams (rails, columns, node numbers), not as Python objects"]


def BOUNDS(tier):
    return f"every size from 2 to {20 if tier == 'quick' else 48} of every architecture (butterfly: every size; cascades up to {9 if tier == 'quick' else 16})"


def cases(tier, seed):
    top = 20 if tier == "quick" else 48
    out = [{"n": n} for n in range(2, top + 1)]
    return out[::-1]


def generic_wiring(ck, m, n, what):
    k = len(m.nodes)
    sp = refc.spec(m)
    ck.check(sorted(i for *_, i in sp) == list(range(k)), f"{what}: node numbers are not 0..{k - 1}", key="numbers")
    ck.check(m.n == n and m.num_nodes == k, f"{what}: size", key="size")
    ck.check(len(m.thetas) == k and len(m.phis) == k and len(m.gammas) == n, f"{what}: number of phases", key="phases")
    for t, b, c, i in sp:
        ck.check(0 <= t < n and 0 <= b < n and t != b, f"{what}: node {i} connects rails {t}, {b}", key="rails")
        ck.check(0 <= c < m.num_columns, f"{what}: node {i} in column {c} of {m.num_columns}", key="column range")
    cols = m.columns
    ck.check(len(cols) == m.num_columns, f"{what}: number of columns", key="columns")
    seen = []
    for c, col in enumerate(cols):
        ck.trans()
        rails = [r for q in col.nodes for r in (q.top, q.bottom)]
        ck.check(len(rails) == len(set(rails)), f"{what}: rails shared within column {c}", key="shared rails")
        ck.check(len(col.nodes) > 0, f"{what}: empty column {c}", key="empty column")
        ck.check({q[3] for q in sp if q[2] == c} == {int(q.node_id) for q in col.nodes}, f"{what}: nodes of column {c}", key="column nodes")
        ck.check([int(x) for x in col.node_idxs] == [int(q.node_id) for q in col.nodes], f"{what}: node indices of column {c}", key="column ids")
        ck.check(str(col.phase_style) == str(m.phase_style), f"{what}: phase style of column {c}", key="column style")
        seen += [int(q.node_id) for q in col.nodes]
    ck.check(sorted(seen) == list(range(k)), f"{what}: the columns do not partition the nodes", key="partition")
    df = m.dataframe
    ck.check(len(df) == k and list(df["top"]) == list(m.top) and list(df["column"]) == [int(x) for x in m.column_by_node], f"{what}: dataframe", key="dataframe")
    # jax index tables: masked entries never alias a used rail
    for back in (False, True):
        top, bottom, ids, mask = m.idx(back)
        ck.trans()
        for r in range(len(top)):
            c = m.num_columns - 1 - r if back else r
            used = {(int(t), int(b), int(i)) for t, b, i, q in zip(top[r], bottom[r], ids[r], mask[r]) if q}
            ck.check(used == {(t, b, i) for t, b, cc, i in sp if cc == c}, f"{what}: index table of column {c}", key="idx")
            pads = {int(t) for t, q in zip(top[r], mask[r]) if not q} | {int(b) for b, q in zip(bottom[r], mask[r]) if not q}
            busy = {x for t, b, _ in used for x in (t, b)}
            ck.check(not pads & busy, f"{what}: padding of column {c} uses a busy rail", key="idx pad")
    ck.trace()
    return sp


def tree_wiring(ck, m, sp, n, balanced, what):
    """A tree analyses n rails: light of all rails can reach the last rail, every other rail ends at exactly one node."""
    ck.check(len(sp) == n - 1, f"{what}: {len(sp)} nodes", key="tree nodes")
    ck.check(sorted(t for t, *_ in sp) == list(range(n - 1)), f"{what}: every rail but the last is nulled once", key="tree tops")
    depth = int(np.ceil(np.log2(n))) if balanced else n - 1
    ck.check(m.num_columns == depth, f"{what}: depth {m.num_columns} instead of {depth}", key="tree depth")
    done = {}
    for t, b, c, i in sp:
        done[t] = c
    for t, b, c, i in sp:
        if b in done:
            ck.check(done[b] > c, f"{what}: node {i} sends light to rail {b}, which is nulled earlier", key="tree order")
    # everything arrives at the last rail
    par = {t: b for t, b, *_ in sp}
    for r in range(n):
        x, steps = r, 0
        while x != n - 1 and steps <= n:
            x, steps = par[x], steps + 1
        ck.check(x == n - 1, f"{what}: rail {r} does not lead to the last rail", key="tree reach")
    # descendants: the nodes upstream of each arm
    by_rail = {}
    up = {}
    for t, b, c, i in sorted(sp, key=lambda q: q[2]):
        up[i] = (set(by_rail.get(t, ())), set(by_rail.get(b, ())))
        by_rail[b] = up[i][0] | up[i][1] | {i}
        by_rail[t] = set()
    for q in m.nodes:
        got = ({int(x) for x in q.top_descendants}, {int(x) for x in q.bot_descendants})
        want = up[q.node_id] if balanced else (up[q.node_id][0] | up[q.node_id][1], set())
        if not balanced:
            got = (got[0] | got[1], set())
        ck.check(got == want, f"{what}: nodes upstream of node {q.node_id}: {got} instead of {want}", key="descendants")
    if not balanced:
        return
    # sampling weights: number of rails behind each arm
    size = {r: 1 for r in range(n)}
    for t, b, c, i in sorted(sp, key=lambda q: q[2]):
        q = next(x for x in m.nodes if x.node_id == i)
        ck.check({q.alpha, q.beta} == {size[t], size[b]}, f"{what}: node {i} weighs {q.alpha}, {q.beta} instead of {size[t]}, {size[b]}", key="weights")
        size[b] += size[t]


def butterfly_def(n, start, depth):
    """Rail i of the upper half meets rail i of the lower half, and each half is a butterfly of its own."""
    if n < 2:
        return []
    h = n // 2
    return [(start + i, start + h + i, depth) for i in range(h)] + butterfly_def(h, start, depth + 1) + butterfly_def(n - h, start + h, depth + 1)


def run(case, ck):
    import simphox.circuit as sc
    from simphox.circuit.vector import tree, butterfly
    n = case["n"]
    for bal in (True, False):
        m = tree(n, balanced=bal)
        ck.state("tree", n, bal)
        what = f"{'balanced' if bal else 'linear'} tree of {n}"
        sp = generic_wiring(ck, m, n, what)
        tree_wiring(ck, m, sp, n, bal, what)
        ck.outcome(tuple(sp))
    for extra in (1, 3):
        m = tree(n, n_rails=n + extra)
        ck.state("embedded", n, extra)
        sp = generic_wiring(ck, m, n + extra, f"tree of {n} in {n + extra} rails")
        ck.check(max(max(t, b) for t, b, *_ in sp) == n - 1, f"tree of {n} in {n + extra} rails uses other rails", key="embedded")
    m = butterfly(n)
    ck.state("butterfly", n)
    what = f"butterfly of {n}"
    sp = generic_wiring(ck, m, n, what)
    want = sorted((t, b, m.num_columns - 1 - d) for t, b, d in butterfly_def(n, 0, 0))
    ck.check(sorted((t, b, c) for t, b, c, _ in sp) == want, f"{what}: wiring", key="butterfly wiring")
    if n & (n - 1) == 0:
        ck.check(len(sp) == n // 2 * int(np.log2(n)) and m.num_columns == int(np.log2(n)), f"{what}: {len(sp)} nodes", key="butterfly nodes")
        mix = np.eye(n, dtype=int)
        for t, b, c, i in sorted(sp, key=lambda q: q[2]):
            both = mix[t] + mix[b]
            mix[t], mix[b] = both, both
        ck.check(np.all(mix == 1), f"{what}: not every input reaches every output on exactly one path", key="butterfly paths")
        for c in range(m.num_columns):
            d = {b - t for t, b, cc, _ in sp if cc == c}
            ck.check(len(d) == 1, f"{what}: spans {d} within column {c}", key="butterfly span")
    if n <= (9 if ck.tier == "quick" else 16):
        u = refc.haar(n, n)
        for name in ("rectangular", "triangular", "tree_cascade"):
            m = getattr(sc, name)(u)
            ck.state(name, n)
            what = f"{name} of {n}"
            sp = generic_wiring(ck, m, n, what)
            ck.check(len(sp) == n * (n - 1) // 2, f"{what}: {len(sp)} nodes", key="mesh nodes")
            pairs = sorted((min(t, b), max(t, b), c) for t, b, c, _ in sp)
            if name == "rectangular":
                want = sorted((i, i + 1, c) for c in range(n) for i in range(c % 2, n - 1, 2))
                ck.check(pairs == [w for w in want], f"{what}: wiring", key="rectangular wiring")
            elif name == "triangular":
                ck.check(m.num_columns == max(1, 2 * n - 3), f"{what}: {m.num_columns} columns", key="triangular depth")
                ck.check(all(b - t == 1 for t, b, _ in pairs), f"{what}: nodes connect distant rails", key="triangular wiring")
                want = sorted((i, i + 1, i + 2 * k) for k in range(n - 1) for i in range(n - 1 - k))
                ck.check(pairs == want, f"{what}: wiring", key="triangular wiring")
            else:
                depth = sum(int(np.ceil(np.log2(i))) for i in range(2, n + 1))
                ck.check(m.num_columns == depth, f"{what}: {m.num_columns} columns instead of {depth}", key="cascade depth")
    ck.sample({"n": n, "butterfly": sp[:4]})
