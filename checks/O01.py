"""Optimization runs: Adam on the documented objective, and records that are those of the iterations they are labelled with."""
import itertools
import numpy as np

TOL = 1e-6
ASSUMPTIONS = ["reference: Adam (b1=0.9, b2=0.999, eps=1e-8) written out, gradients of the documented objective by JAX outside of the optimizer",
               "several problems: the average objective", "2D simulations, transverse-magnetic; cost functions return (objective, auxiliary data)",
               "permittivity records: after the update of the iteration; field records: the fields the iteration's objective was computed from"]
SHAPE, D = (24, 20), 0.1
KINDS = ("plain", "transformed", "sim", "sim2", "same name", "identity", "no source", "no sim", "shared")


def BOUNDS(tier):
    return (f"all lists of <= {2 if tier == 'quick' else 3} problems out of {len(KINDS)} kinds x numbers of iterations, step sizes, record intervals, metrics, progress bars and live views")


def cases(tier, seed):
    q = tier == "quick"
    out = [{"kinds": [k], "full": True} for k in KINDS]
    out += [{"kinds": [a, b], "full": False} for a in KINDS for b in KINDS]
    if not q:
        out += [{"kinds": list(w), "full": False} for w in itertools.product(KINDS, repeat=3)]
    return out


def simulation(name, k):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    eps = np.full(SHAPE, 2.0)
    eps[:, 8:12] = 6.0 + k
    eps[10:14, 4:6] += 1.0 + k
    sim = FDFD((SHAPE[0] * D, SHAPE[1] * D), D, eps=eps, pml=(0.4, 0.4), name=name)
    sim.port = {"a0": Port(0.7, 1.0, 180, 0.4), "b0": Port(1.7, 1.0, 0, 0.4)}
    return sim, eps


def build(kinds):
    """Problems of the given kinds and, for each, its objective written from the definition."""
    import jax.numpy as jnp
    from simphox.opt import OptProblem
    problems, objectives = [], []
    shared = None
    for i, kind in enumerate(kinds):
        w = 1.0 + 0.3 * i
        if kind == "plain":
            def cost(rho, w=w):
                return jnp.sum((rho - w) ** 4) + w * jnp.sum(rho[:, 0] * rho[:, 1]), None
            problems.append(OptProblem(None, cost, None, None))
            objectives.append((lambda rho: rho, cost, None))
            continue
        if kind in ("transformed", "no sim"):
            def cost(x, w=w):
                return jnp.sum(jnp.cos(x) * w), {"x": x}

            def tf(rho, w=w):
                return 2 * rho * w + rho ** 2
            problems.append(OptProblem(tf, cost, None, None if kind == "transformed" else "a0"))
            objectives.append((tf, cost, None))
            continue
        name = {"sim": f"sim{i}", "sim2": f"other{i}", "same name": "fdfd", "identity": f"identity{i}", "no source": f"still{i}", "shared": "shared"}[kind]
        if kind == "shared" and shared is not None:
            sim, eps = shared
        else:
            sim, eps = simulation(name, 0.5 * i + (1 if kind == "sim2" else 0))
            shared = (sim, eps) if kind == "shared" else shared

        def tf(rho, eps=eps, w=w):
            return jnp.array(eps).at[8:16, 7:13].add(jnp.kron(jnp.tanh(rho) * w, jnp.ones((4, 2))))
        if kind == "identity":
            # parameters are a permittivity themselves: only alone
            tf = None
        if kind == "no source":
            def cost(e, w=w):
                return w * jnp.sum((e[8:16, 7:13] - 5.0) ** 2) / 10, None
            problems.append(OptProblem(tf, cost, sim, None))
            objectives.append((tf, cost, sim))
            continue
        src, out = ("a0", 1) if kind != "sim2" and not (kind == "shared" and i) else ("b0", 0)

        def cost(res, out=out, w=w):
            s, fields = res
            return -w * jnp.abs(s[out]) ** 2 + 0.1 * jnp.abs(s[1 - out]), (s, fields)
        metrics = None if kind == "sim2" else (lambda s: {"through": float(np.abs(s.loc["b0"]) ** 2), "back": float(np.abs(s.loc["a0"]) ** 2)})
        problems.append(OptProblem(tf, cost, sim, src, metrics))
        objectives.append((tf, cost, sim, src, metrics))
    return problems, objectives


def reference(objectives, rho, iters, step_size):
    """Per iteration: objective, parameters after it, fields and s-parameters of every simulation."""
    import jax
    import jax.numpy as jnp
    fns = []
    for o in objectives:
        ident = lambda x: x
        fns.append(o[2].get_sim_sparams_fn(o[3], o[0] or ident) if len(o) > 3 else (o[0] or ident))

    def overall(x):
        vals = [o[1](f(x)) for o, f in zip(objectives, fns)]
        return sum(v for v, _ in vals) / len(vals), [a for _, a in vals]
    grad = jax.value_and_grad(overall, has_aux=True)
    m, v = np.zeros(np.shape(rho)), np.zeros(np.shape(rho))
    x = np.array(rho, float)
    out = []
    for t in range(1, iters + 1):
        (c, aux), g = grad(jnp.array(x))
        g = np.asarray(g)
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        x = x - step_size * (m / (1 - 0.9 ** t)) / (np.sqrt(v / (1 - 0.999 ** t)) + 1e-8)
        out.append((float(c), x.copy(), aux))
    return out


class Pipe:
    def __init__(self):
        self.sent = []

    def send(self, data):
        self.sent.append(data.copy() if hasattr(data, "copy") else np.array(data))


class Bar:
    def __init__(self, it):
        self.it, self.text = list(it), []
        Bar.last = self

    def __iter__(self):
        return iter(self.it)

    def set_description(self, text):
        self.text.append(text)


def run(case, ck):
    from simphox.opt import opt_run, OptViz
    kinds = case["kinds"]
    if len(kinds) > 1 and "identity" in kinds:
        # a permittivity as parameters fits only problems that take one: skip the others
        kinds = ["identity" if k == "identity" else "no source id" for k in kinds]
        if "no source id" in kinds:
            return
    start = np.array([[0.3, -0.2, 0.4], [0.1, 0.5, -0.6]])
    options = [dict(num_iters=3, step_size=0.05, eps_interval=1, field_interval=2, metric_interval=1)]
    if case["full"]:
        options += [dict(num_iters=4, step_size=0.2, eps_interval=2, field_interval=1, metric_interval=2, pbar=Bar), dict(num_iters=1, step_size=0.01),
                    dict(num_iters=5, step_size=0.1, eps_interval=3, field_interval=3, metric_interval=3, viz=True, viz_interval=2),
                    dict(num_iters=2, step_size=0.1, metric_interval=2, viz=True, viz_interval=0, eps_interval=5), dict(num_iters=2), dict(num_iters=3, step_size=0.3, no_params=True)]
    else:
        options += [dict(num_iters=2, step_size=0.1, viz=True, viz_interval=1, metric_interval=1, pbar=Bar, field_interval=1)]
    for opt in options:
        problems, objectives = build(kinds)
        rho = start.copy()
        if "identity" in kinds:
            rho = objectives[0][2].eps.copy()
        opt = dict(opt)
        if opt.pop("no_params", False):
            if kinds != ["identity"]:
                continue
            given = None
        else:
            given = rho.copy()
        label = f"{'+'.join(kinds)} {opt}"
        iters, step = opt.pop("num_iters"), opt.pop("step_size", None)
        want = reference(objectives, rho, iters, 1 if step is None else step)
        sims = [o for o in objectives if len(o) > 3]
        names = [o[2].name for o in sims]
        viz = None
        if opt.pop("viz", False):
            if len(set(names)) < len(names):
                continue
            config = {"both": ["through", "back"], "one": ["back"]} if all(o[4] for o in sims) else {}
            viz = OptViz(None, {}, Pipe(), {n: (Pipe(), Pipe(), Pipe()) for n in names}, config or None, None, {n: {t: Pipe() for t in config} for n in names} if config else None)
        kw = dict(opt)
        if step is not None:
            kw["step_size"] = step
        rec = opt_run(problems[0] if len(problems) == 1 else problems, given, iters, viz=viz, **kw)
        ck.trans(iters)
        ck.state(label)
        # the objective and the parameters
        ck.close(rec.costs, [w[0] for w in want], f"{label}: costs", TOL, key="costs")
        ck.close(rec.params, want[-1][1], f"{label}: final parameters", 1e-5, key="params")
        ck.check(given is None or np.array_equal(given, rho), f"{label}: the initial parameters were changed", key="initial parameters")
        ck.outcome(np.round(want[-1][0], 6))
        # permittivity of the simulations
        last = {}
        for o in objectives:
            if o[2] is not None:
                last[id(o[2])] = (o[2], o[0])
        for sim, tf in last.values():
            e = want[-1][1] if tf is None else np.asarray(tf(want[-1][1]))
            ck.close(sim.eps, e, f"{label}: final permittivity of {sim.name}", 1e-5, key="final eps")
        # records
        ei, fi, mi = (opt.get(k, 0) for k in ("eps_interval", "field_interval", "metric_interval"))
        for which, interval in (("eps", ei), ("fields", fi)):
            got = getattr(rec, which)
            if not interval or not sims:
                ck.check(len(got) == 0, f"{label}: {which} recorded although not asked for", key=f"{which} records")
                continue
            its = [t for t in range(iters) if t % interval == 0]
            ck.check(list(got.dims) == ["name", "iteration", "x", "y"] and list(got.coords["name"].values) == names and list(got.coords["iteration"].values) == its,
                     f"{label}: {which} recorded for {list(got.coords['name'].values)} at iterations {list(got.coords['iteration'].values)}", key=f"{which} records")
            for k, o in enumerate(sims):
                pos = [x for x in objectives].index(o)
                for n, t in enumerate(its):
                    if which == "eps":
                        tf = last[id(o[2])][1]
                        e = want[t][1] if tf is None else np.asarray(tf(want[t][1]))
                    else:
                        e = np.asarray(want[t][2][pos][1][1])[2].reshape(SHAPE)
                        e = np.asarray(o[2].decorate(*want[t][2][pos])[2][2]).squeeze()
                    ck.close(got.values[k, n], e, f"{label}: {which} of problem {k} at iteration {t}", 1e-5, key=f"{which} records")
        metered = [o for o in sims if o[4]]
        if mi and metered:
            its = [t for t in range(iters) if t % mi == 0]
            got = rec.metrics
            cols = ["through", "back"] if viz is None or viz.metric_config is None else ["through", "back", "back"]
            ck.check(len(got) > 0 and list(got.dims) == ["name", "metric", "iteration"] and list(got.coords["name"].values) == [o[2].name for o in metered] and list(got.coords["metric"].values) == cols
                     and list(got.coords["iteration"].values) == its, f"{label}: metrics {getattr(got, 'coords', got)}", key="metric records")
            for k, o in enumerate(metered):
                pos = objectives.index(o)
                for n, t in enumerate(its):
                    s = np.asarray(want[t][2][pos][0])
                    vals = {"through": np.abs(s[1]) ** 2, "back": np.abs(s[0]) ** 2}
                    ck.close(got.values[k, :, n], [vals[c] for c in cols], f"{label}: metrics of problem {k} at iteration {t}", 1e-5, key="metric records")
        elif not mi or not metered:
            ck.check(len(rec.metrics) == 0, f"{label}: metrics recorded although not asked for", key="metric records")
        # progress and live views
        if opt.get("pbar"):
            ck.check(Bar.last.it == list(range(iters)) and len(Bar.last.text) == iters and all(f"{w[0]:.5f}" in t or abs(float(t.split()[-1]) - w[0]) < 2e-5 for w, t in zip(want, Bar.last.text)),
                     f"{label}: progress {Bar.last.it} {Bar.last.text}", key="progress")
        if viz is not None:
            ck.check(len(viz.costs_pipe.sent) == iters, f"{label}: {len(viz.costs_pipe.sent)} cost views", key="views")
            for n, c in enumerate(viz.costs_pipe.sent):
                ck.close(c, [w[0] for w in want[:n + 1]], f"{label}: costs shown at iteration {n}", TOL, key="views")
            vi = opt.get("viz_interval", 0)
            its = [t for t in range(iters) if vi and t % vi == 0]
            for o in sims:
                pos = objectives.index(o)
                pe, pf, pp = viz.simulations_pipes[o[2].name]
                ck.check([len(p.sent) for p in (pe, pf, pp)] == [len(its)] * 3, f"{label}: number of views", key="views")
                for n, t in enumerate(its):
                    e = want[t][1] if o[0] is None else np.asarray(o[0](want[t][1]))
                    f = np.asarray(o[2].decorate(*want[t][2][pos])[2][2]).squeeze().T
                    if list(map(lambda x: id(x[2]), sims)).count(id(o[2])) == 1:
                        ck.close(pe.sent[n], ((e - e.min()) / (e.max() - e.min())).T, f"{label}: permittivity shown at {t}", 1e-5, key="views")
                    ck.close(np.asarray(pf.sent[n]) * f.real.max(), f.real, f"{label}: field shown at {t}", 1e-5, key="views")
                    ck.close(pp.sent[n], np.abs(f) ** 2 / (np.abs(f) ** 2).max(), f"{label}: power shown at {t}", 1e-5, key="views")
                if mi and viz.metrics_pipes:
                    mits = [t for t in range(iters) if t % mi == 0]
                    for title, pipe in viz.metrics_pipes[o[2].name].items():
                        ck.check(len(pipe.sent) == len(mits), f"{label}: number of metric views", key="views")
                        for n, shown in enumerate(pipe.sent):
                            ck.check(list(shown.coords["iteration"].values) == mits[:n + 1] and list(shown.coords["metric"].values) == viz.metric_config[title], f"{label}: metric view {title}", key="views")
                            ss = [np.asarray(want[t][2][pos][0]) for t in mits[:n + 1]]
                            vals = {"through": [np.abs(s[1]) ** 2 for s in ss], "back": [np.abs(s[0]) ** 2 for s in ss]}
                            ck.close(shown.values, [vals[c] for c in viz.metric_config[title]], f"{label}: metrics shown", 1e-5, key="views")
        ck.trace()
