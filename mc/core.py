"""Bounded exhaustive exploration engine.

A check module (checks/<ID>.py) provides

    LEVEL, RULE, BOUNDS(tier) -> str, ASSUMPTIONS
    cases(tier, seed) -> iterable of JSON-able case descriptions (the enumerated space, cut into work items)
    run(case, ck)     -> explores everything inside the case on the real code, reporting to `ck`

The parent process never imports the code under test: it enumerates the cases, hands them to a pool of worker
processes, merges what they covered, and writes the evidence file.  The exploration of a case is deterministic
(a function of the case and VERIF_SEED only), so any violation is replayed by re-running its case.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "240"))
MAX_VIOLATIONS_PER_CASE = 5
STOP_AFTER_BAD_CASES = int(os.environ.get("VERIF_STOP", "12"))


class Stop(Exception):
    """Raised to abandon a case after a violation makes continuing pointless."""


class Ck:
    """What a case explored and found."""

    def __init__(self, case, tier, seed):
        self.case, self.tier, self.seed = case, tier, seed
        self.states, self.transitions, self.traces = set(), 0, 0
        self.outcomes = set()
        self.samples, self.violations = [], []
        self.counts = {}

    # -- coverage -----------------------------------------------------------------
    def state(self, *key):
        """Register a distinct explored state / input configuration. True if it is new in this case."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        """n operations of the real code were executed."""
        self.transitions += n

    def trace(self, n=1):
        """n complete executions of the real code were compared with the reference model."""
        self.traces += n

    def outcome(self, *key):
        """A distinct observed result (guards against vacuous exploration)."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------------
    def fail(self, msg, key=None, **info):
        self.violations.append({"msg": str(msg)[:2000], "key": key or str(msg)[:200],
                                "info": json.loads(json.dumps(info, default=str))})
        if len(self.violations) >= MAX_VIOLATIONS_PER_CASE:
            raise Stop()
        return False

    def check(self, cond, msg, key=None, **info):
        return True if cond else self.fail(msg, key, **info)

    def close(self, got, want, msg, tol=1e-6, key=None, **info):
        """got == want up to tol relative to max(1, |want|); shapes must agree, and no NaN."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.fail(f"{msg}: shape {got.shape} instead of {want.shape}", key or msg, **info)
        if got.size == 0:
            return True
        scale = max(1.0, float(np.max(np.abs(want))))
        err = np.abs(got - want)
        if not np.all(np.isfinite(err)) or float(np.max(err)) > tol * scale:
            return self.fail(f"{msg}: differs by {np.max(err):.3g} (tolerance {tol * scale:.3g})", key or msg, **info)
        return True

    def raises(self, fn, msg, exc=Exception, key=None, **info):
        try:
            fn()
        except exc:
            return True
        return self.fail(f"{msg}: no error was raised", key or msg, **info)


def execute(mod, case, tier, seed):
    ck = Ck(case, tier, seed)
    import random
    import numpy as np
    s = int.from_bytes(hashlib.blake2b(json.dumps([case, seed], sort_keys=True).encode(), digest_size=4).digest(), "big")
    np.random.seed(s)
    random.seed(s)
    try:
        mod.run(case, ck)
    except Stop:
        pass
    except Exception as e:  # the code under test failed where the reference model does not
        tb = traceback.format_exc()
        where = [ln.strip() for ln in tb.splitlines() if "/repo/" in ln]
        try:
            ck.fail(f"unexpected {type(e).__name__}: {e}", key=f"unexpected {type(e).__name__}",
                    traceback=tb[-3000:], where=where[-1:] if where else [])
        except Stop:
            pass
    return ck


def worker(conn, mod_name, tier, seed):
    os.setsid()
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        mod = importlib.import_module(mod_name)
        if hasattr(mod, "setup"):
            mod.setup()
        conn.send(("ready", None))
    except Exception:
        conn.send(("broken", traceback.format_exc()))
        return
    while True:
        try:
            case = conn.recv()
        except (EOFError, KeyboardInterrupt):
            return
        if case is None:
            return
        ck = execute(mod, case, tier, seed)
        conn.send(("done", (ck.states, ck.transitions, ck.traces, ck.outcomes, ck.samples, ck.violations, ck.counts)))


class Pool:
    def __init__(self, n, mod_name, tier, seed):
        self.ctx, self.args = mp.get_context("spawn"), (mod_name, tier, seed)
        self.n, self.workers = n, {}

    def start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        self.workers[a] = {"proc": p, "case": None, "since": time.time(), "ready": False}

    def stop(self, conn):
        w = self.workers.pop(conn)
        try:
            w["proc"].kill()
            w["proc"].join(5)
        except Exception:
            pass
        conn.close()

    def close(self):
        for c in list(self.workers):
            self.stop(c)


def explore(mod_name, cases, tier, seed, nproc, deadline):
    """Run every case; yields (case, kind, payload)."""
    pool = Pool(nproc, mod_name, tier, seed)
    todo = [(c, 0) for c in cases][::-1]
    broken = 0
    try:
        for _ in range(min(nproc, max(1, len(todo)))):
            pool.start()
        while todo or any(w["case"] is not None for w in pool.workers.values()):
            if time.time() > deadline:
                yield None, "deadline", len(todo)
                return
            if not pool.workers:
                pool.start()
            for c in wait(list(pool.workers), timeout=1.0):
                w = pool.workers[c]
                try:
                    kind, payload = c.recv()
                except (EOFError, OSError, ConnectionResetError):
                    w["proc"].join(5)
                    case, code = w["case"], w["proc"].exitcode
                    pool.stop(c)
                    if case is not None:
                        if case[1] == 0:
                            todo.append((case[0], 1))  # once more, in a fresh process
                        else:
                            yield case[0], "died", f"the process executing this case died (exit code {code})"
                    else:
                        broken += 1
                        if broken > 3:
                            yield None, "broken", f"worker processes die at start-up (exit code {code})"
                            return
                    if todo:
                        pool.start()
                    continue
                if kind == "broken":
                    yield None, "broken", payload
                    return
                if kind == "done":
                    yield w["case"][0], "done", payload
                    w["case"] = None
                w["ready"] = True
            for c, w in list(pool.workers.items()):
                if w["ready"] and w["case"] is None and todo:
                    w["case"], w["since"] = todo.pop(), time.time()
                    try:
                        c.send(w["case"][0])
                    except (BrokenPipeError, OSError):
                        pass
                elif w["case"] is not None and time.time() - w["since"] > CASE_TIMEOUT:
                    case = w["case"]
                    pool.stop(c)
                    if case[1] == 0:
                        todo.append((case[0], 1))
                    else:
                        yield case[0], "died", f"no answer within {CASE_TIMEOUT:.0f} s (deadlock or endless loop)"
                    if todo:
                        pool.start()
    finally:
        pool.close()


def load_known(pid):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line and "key=" in line:
                key, _, desc = line.split("key=", 1)[1].partition(" :: ")
                known[key.strip()] = desc.strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=0)
    args = ap.parse_args()
    pid, tier = args.id, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nproc = args.procs or int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["TMPDIR"] = scratch
    mod_name = f"checks.{pid}"
    try:
        return _main(args, pid, tier, seed, nproc, mod_name)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, pid, tier, seed, nproc, mod_name):
    t0 = time.time()
    mod = importlib.import_module(mod_name)  # check modules import the code under test lazily
    if args.replay:
        rec = json.load(open(args.replay))
        if hasattr(mod, "setup"):
            mod.setup()
        ck = execute(mod, rec["case"], rec.get("tier", tier), rec.get("seed", seed))
        for v in ck.violations:
            print(v["msg"], json.dumps(v["info"], indent=1))
        print("reproduced" if ck.violations else "not reproduced")
        return 1 if ck.violations else 0
    cases = list(mod.cases(tier, seed))
    states, transitions, traces, outcomes, samples, violations, counts = set(), 0, 0, set(), [], [], {}
    done, bad, note = 0, 0, None
    known = load_known(pid)
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "20000"))
    for case, kind, payload in explore(mod_name, cases, tier, seed, nproc, deadline):
        if kind == "done":
            s, tr, tc, oc, sm, vi, cn = payload
            states |= s
            transitions += tr
            traces += tc
            outcomes |= oc
            for k, v in cn.items():
                counts[k] = counts.get(k, 0) + v
            if sm and len(samples) < 6:
                samples.extend(sm[:1])
            done += 1
            violations.extend((case, v) for v in vi)
            bad += any(v["key"] not in known for v in vi)
        elif kind == "died":
            violations.append((case, {"msg": payload, "key": "died", "info": {}}))
            bad += 1
        elif kind == "broken":
            violations.append((None, {"msg": "the code under test could not be loaded", "key": "load",
                                      "info": {"traceback": payload}}))
            break
        elif kind == "deadline":
            note = f"time budget reached, {payload} of {len(cases)} cases not explored"
            break
        if bad >= STOP_AFTER_BAD_CASES:
            note = f"stopped after {bad} violating cases"
            break
    unknown = [(c, v) for c, v in violations if v["key"] not in known]
    seen_known = sorted({v["key"] for _, v in violations if v["key"] in known})
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {known[k] or k}")
    replay = None
    if unknown:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        shown = set()
        for i, (c, v) in enumerate(unknown):
            if v["key"] in shown or len(shown) >= 5:
                continue
            shown.add(v["key"])
            path = os.path.join(ROOT, "replays", f"{pid}-{len(shown)}.json")
            json.dump({"property": pid, "tier": tier, "seed": seed, "case": c, **v}, open(path, "w"), indent=1)
            replay = replay or path
            print(f"  case {json.dumps(c)[:300]}: {v['msg'][:600]}")
            if v["info"].get("where"):
                print("   ", v["info"]["where"])
            if v["info"].get("traceback") and (c is None or not v["info"].get("where")):
                print(v["info"]["traceback"][-1500:])
            print(f"VIOLATION property={pid} replay={path}")
    wall = time.time() - t0
    exhaustive = done == len(cases) and note is None
    cov = {"states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
           "distinct_outcomes": len(outcomes), "cases": len(cases), "cases_explored": done,
           "exhaustive": exhaustive, "bound": mod.BOUNDS(tier) if callable(mod.BOUNDS) else mod.BOUNDS,
           "samples": samples or ([{"case": cases[0]}] if cases else [])}
    if counts:
        cov["detail"] = counts
    if note:
        cov["note"] = note
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(unknown)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: cases={done}/{len(cases)} states={len(states)} transitions={transitions} "
          f"traces={traces} outcomes={len(outcomes)} violations={len(unknown)} wall={wall:.1f}s"
          + (f" ({note})" if note else ""))
    return 1 if unknown else 0


if __name__ == "__main__":
    sys.exit(main())
