"""Development aid: plant a bug, confirm it, keep it under seeded/.

usage: plant.py FILE.py [--nocheck]     FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks, checks=[...])]
Every bug is confirmed in a scratch copy of /repo (demo passes before, fails after, stable tests pass); then the checks are run
against the scratch copy (VERIF_REPO).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.environ.get("PLANT_ROOT", "/verif")
REPO = os.environ.get("PLANT_REPO", "/repo")
ENV = dict(os.environ, LD_LIBRARY_PATH="/opt/venv/lib", JAX_PLATFORMS="cpu", MKL_NUM_THREADS="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
DEMO_SH = """#!/bin/bash
# exits 0 on correct code, nonzero with the planted bug; run with cwd = repository root
export LD_LIBRARY_PATH=/opt/venv/lib JAX_PLATFORMS=cpu MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout), str(e.stderr))


def one(bug, nocheck):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    lines = []
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", REPO, r], check=True)
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(out, "demo.sh")], r)
        if a.returncode != 0:
            return bug["id"], f"DEMO FAILS ON CLEAN TREE: {a.stdout[-300:]} {a.stderr[-600:]}"
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], f"edit of {f}: {s.count(old)} matches for {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        # changed lines are original ones?
        b = sh(["bash", os.path.join(out, "demo.sh")], r)
        if b.returncode == 0:
            return bug["id"], "DEMO PASSES WITH THE BUG"
        lines.append("demo: " + (b.stderr.strip().splitlines() or ["?"])[-1][:100])
        rep = os.path.join(d, "o.xml")
        sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
            f"--junitxml={rep}", "tests"], r, {"PYTHONPATH": r, "MPLCONFIGDIR": "/opt/vp/mpl"})
        sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(d, "o.json"), "junit:" + rep], r)
        passed = set(json.load(open(os.path.join(d, "o.json")))["passed"])
        lost = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if lost:
            return bug["id"], f"TESTS CATCH IT: {len(lost)} e.g. {lost[:3]}"
        removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        blame = 0
        for f, old, _ in bug["edits"]:
            base = sh(["git", "show", f"26d4834:{f}"], REPO).stdout
            blame += sum(1 for l in removed if l[1:].strip() and l[1:] in base.splitlines())
        lines.append(f"original lines changed: {blame}/{len(removed)}")
        dst = os.path.join(ROOT, "seeded", bug["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        if not nocheck:
            for c in bug.get("checks", [bug["property"]]):
                k = sh(["./run.sh", c, "quick"], ROOT, {"VERIF_REPO": r, "VERIF_SEED": "1"}, 1000)
                v = [l for l in k.stdout.splitlines() if "VIOLATION" in l or l.startswith("  case")]
                lines.append(f"{c}: {'CAUGHT' if k.returncode == 1 and v else '*** MISSED rc=%d' % k.returncode} {v[0][:260] if v else k.stdout[-200:] + k.stderr[-200:]}")
        return bug["id"], " | ".join(lines)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in bugs if not only or b["id"] in only]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(lambda b: one(b, "--nocheck" in sys.argv), bugs):
            print(f"[{i}] {m}", flush=True)
