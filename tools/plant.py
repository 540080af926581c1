#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo: plant.py [-c] ID...   (-c: only the check, not the tests)

For each /verif/seeded/ID: the patch applies to HEAD, the stable tests pass with it, the demonstration passes
without and fails with it; then the quick check of its property is run against the copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def one(i, only_check):
    src = f"{V}/seeded/{i}"
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        c = f"{top}/repo"
        subprocess.run(["git", "-C", R, "worktree", "prune"], check=True)
        subprocess.run(["cp", "-a", R, c], check=True)
        subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."], check=True)
        demo = f"{top}/demo"
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        env = dict(ENV, PYTHONPATH=c)
        run = lambda: subprocess.run(["bash", f"{demo}/demo.sh"], cwd=c, env=env, capture_output=True, text=True, timeout=300)
        if not only_check:
            a = run()
            if a.returncode:
                return f"demo fails on the unchanged tree: {a.stdout[-300:]} {a.stderr[-500:]}"
        p = subprocess.run(["git", "-C", c, "apply", f"{src}/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            return f"patch does not apply: {p.stderr}"
        if not only_check:
            b = run()
            if not b.returncode:
                return "demo passes with the patch"
            sh = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {c}").replace("unset PYTHONPATH", f"export PYTHONPATH={c}; unset").replace("-n 4", "-n 8")
            open(f"{top}/t.sh", "w").write(sh)
            subprocess.run(["bash", f"{top}/t.sh", f"{top}/out.json"], env=env, capture_output=True)
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            got = set(json.load(open(f"{top}/out.json"))["passed"])
            stable = {t for t in stable if "erformance" not in t}
            if stable - got:
                return f"tests fail: {sorted(stable - got)[:5]} ({len(stable - got)})"
        prop = json.load(open(f"{src}/meta.json"))["property"]
        k = subprocess.run([f"{V}/check", prop, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_SEED="1"), capture_output=True, text=True)
        v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{'CAUGHT' if k.returncode == 1 and v else 'MISSED'} by {prop} (exit {k.returncode}) {k.stdout.strip().splitlines()[-1][:200] if k.stdout.strip() else k.stderr[-300:]}"
    finally:
        shutil.rmtree(top)


a = sys.argv[1:]
oc = "-c" in a
for i in [x for x in a if x != "-c"] or sorted(os.listdir(f"{V}/seeded")):
    print(i, one(i, oc), flush=True)
