"""check PROPERTY TIER: many simulated runs, evidence, minimised violations."""
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def worker_env(extra=None):
    from sim import seam
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "VERIF_REPO", "LC_ALL")}
    env.update(PYTHONHASHSEED="0", TZ="UTC", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONUTF8="1", LD_PRELOAD=seam.build(), PYTHONWARNINGS="ignore")
    env.update(extra or {})
    return env


class Pool:
    def __init__(self, prop, scratch, n, extra_env=None):
        self.prop = prop
        self.procs = []
        self.err = open(os.path.join(scratch, "stderr.txt"), "ab")
        for _ in range(n):
            # each worker starts from nothing: what it finds must not depend on how far the others are
            own = tempfile.mkdtemp(prefix="w", dir=scratch)
            home, cache = os.path.join(own, "home"), os.path.join(own, "cache")
            os.mkdir(home)
            os.mkdir(cache)
            env = worker_env(dict(HOME=home, MT_METADATA_CACHE_DIR=cache, **(extra_env or {})))
            p = subprocess.Popen([PY, "-X", "utf8", os.path.join(HERE, "worker.py"), prop, scratch],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                 env=env, text=True, cwd=scratch)
            self.procs.append(p)
        for p in self.procs:
            line = p.stdout.readline()
            if not line or not json.loads(line).get("ready"):
                raise RuntimeError("worker did not start: " + open(os.path.join(scratch, "stderr.txt")).read()[-3000:])

    def map(self, jobs, stop=None, deadline=None):
        """Results in order of completion."""
        q = queue.Queue()
        for j in jobs:
            q.put(j)
        out = queue.Queue()

        def serve(p):
            while True:
                if (stop and stop()) or (deadline and time.monotonic() > deadline):
                    break
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                try:
                    p.stdin.write(json.dumps(j) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                    if not line:
                        raise RuntimeError("worker died")
                    out.put(json.loads(line))
                except Exception as e:
                    out.put({"idx": j["idx"], "harness": f"worker lost: {e}"})
                    break
            out.put(None)

        ths = [threading.Thread(target=serve, args=(p,), daemon=True) for p in self.procs]
        for t in ths:
            t.start()
        live = len(ths)
        while live:
            r = out.get()
            if r is None:
                live -= 1
            else:
                yield r

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
            except Exception:
                pass
        for p in self.procs:
            try:
                p.wait(10)
            except Exception:
                p.kill()
        self.err.close()


def shrinkable(plan):
    """Paths to lists of the plan that may be shortened."""
    return [k for k in plan.get("_shrink", ["ops", "faults", "preempt"]) if isinstance(plan.get(k), list)]


def minimise(pool, plan, kind, budget=160, deadline=None):
    """ddmin over the plan's lists, keeping the violation kind."""
    tried = 0
    best = plan

    def fails(cands):
        """first candidate (in order) that still fails with the same kind"""
        nonlocal tried
        jobs = [{"idx": i, "plan": c} for i, c in enumerate(cands)]
        tried += len(jobs)
        res = {r["idx"]: r for r in pool.map(jobs, deadline=deadline)}
        for i in range(len(cands)):
            v = res.get(i, {}).get("violation")
            if v and v["kind"] == kind:
                return cands[i]
        return None

    changed = True
    while changed and tried < budget and not (deadline and time.monotonic() > deadline):
        changed = False
        for key in shrinkable(best):
            n = 2
            while tried < budget and not (deadline and time.monotonic() > deadline):
                lst = best[key]
                if not lst:
                    break
                size = max(1, len(lst) // n)
                cands = []
                for s in range(0, len(lst), size):
                    c = dict(best)
                    c[key] = lst[:s] + lst[s + size:]
                    cands.append(c)
                hit = None
                for k in range(0, len(cands), 8):
                    hit = fails(cands[k:k + 8])
                    if hit or tried >= budget:
                        break
                if hit:
                    best = hit
                    changed = True
                    n = max(n - 1, 2)
                elif size == 1:
                    break
                else:
                    n = min(len(lst), n * 2)
    return best, tried


def findings(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    try:
        with open(fn) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == prop and x.get("status") == "known"]
    except FileNotFoundError:
        return []


def main(argv):
    prop, tier = argv[0].upper(), (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    mod = importlib.import_module(f"sim.props.{prop.lower()}_meta") if os.path.exists(
        os.path.join(HERE, "props", f"{prop.lower()}_meta.py")) else None
    from sim.props import table
    meta = table.TABLE[prop]
    total = int(os.environ.get("VERIF_RUNS", meta["runs"][tier]))
    wall = meta.get("wall", {"quick": 420, "thorough": 3000})[tier]
    nworkers = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    scratch = tempfile.mkdtemp(prefix="mtsim-")
    rc = 2
    try:
        rc = _check(prop, tier, seed, total, wall, nworkers, scratch, meta, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _check(prop, tier, seed, total, wall, nworkers, scratch, meta, t0):
    pool = Pool(prop, scratch, nworkers)
    deadline = time.monotonic() + wall
    jobs = [{"idx": i, "seed": seed, "tier": tier} for i in range(total)]
    results = {}
    viols = []
    harness = []
    fs = findings(prop)
    known_hits = []

    def stop():
        return len(viols) >= 6 or len(harness) >= 5

    for r in pool.map(jobs, stop=stop, deadline=deadline):
        results[r["idx"]] = r
        if r.get("harness"):
            if r.get("timeout") and meta.get("timeout_is_violation"):
                r["violation"] = {"kind": "no termination", "detail": "run did not end in time"}
                viols.append(r)
            else:
                harness.append(r)
        elif r["violation"]:
            viols.append(r)
    # known findings are replayed by their exact input
    for f in fs:
        r = list(pool.map([{"idx": -1, "plan": f["plan"]}]))[0]
        v = r.get("violation")
        if v and v["kind"] == f["kind"]:
            known_hits.append(f)
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        elif v:
            r["plan"] = f["plan"]
            viols.append(r)
        elif r.get("harness"):
            harness.append(r)
    for c in meta.get("canaries", []):
        pass
    # report violations: smallest index first, one per kind
    viols.sort(key=lambda r: r["idx"])
    reported = []
    seen = set()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for v in viols:
        kind = v["violation"]["kind"]
        if kind in seen or len(reported) >= 3:
            continue
        seen.add(kind)
        plan = v.get("plan")
        tried = 0
        reproduced = False
        if plan is not None:
            plan, tried = minimise(pool, plan, kind, budget=meta.get("shrink_budget", 120),
                                   deadline=time.monotonic() + 90)
        path = os.path.join(VERIF, "replays", f"{prop}-s{seed}-r{v['idx']}.json")
        rec = {"property": prop, "kind": kind, "detail": v["violation"]["detail"], "seed": seed,
               "run": v["idx"], "tier": tier, "plan": plan, "shrink_attempts": tried}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        # the replay must reproduce in a process of its own
        p2 = Pool(prop, scratch, 1)
        try:
            job = {"idx": v["idx"], "plan": plan} if plan is not None else {"idx": v["idx"], "seed": seed, "tier": tier}
            rr = list(p2.map([job]))[0]
            vv = rr.get("violation") or {}
            reproduced = vv.get("kind") == kind
            if reproduced:
                rec["detail"] = vv["detail"]
        finally:
            p2.close()
        rec["reproduced_in_fresh_process"] = reproduced
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        reported.append((kind, path, rec["detail"], reproduced))
    pool.close()
    ran = [r for r in results.values() if not r.get("harness")]
    ran.sort(key=lambda r: r["idx"])
    write_evidence(prop, tier, seed, meta, ran, total, t0, viols, known_hits, nworkers, harness)
    for kind, path, detail, rep in reported:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {kind}: {detail[:600]}" + ("" if rep else "  [did not reproduce on replay]"))
    if reported:
        return 1
    if harness:
        for h in harness[:3]:
            print(f"HARNESS property={prop} run={h['idx']}: {h['harness'][-1500:]}")
        try:
            print(open(os.path.join(scratch, "stderr.txt")).read()[-2000:])
        except OSError:
            pass
        return 2
    if not ran:
        print("HARNESS nothing ran")
        return 2
    print(f"OK property={prop} runs={len(ran)}/{total} wall={time.monotonic() - t0:.1f}s")
    return 0


def write_evidence(prop, tier, seed, meta, ran, total, t0, viols, known, nworkers, harness):
    fired, ops, crashes, procs, sim_ns = {}, 0, 0, 0, 0
    states = set()
    digests = set()
    extra = {}
    samples = []
    nontrivial = 0
    evals = 0
    for r in ran:
        st = r["stats"]
        for k, v in st["fired"].items():
            fired[k] = fired.get(k, 0) + v
        ops += st["ops"]
        crashes += st["crashes"]
        procs += st["processes"]
        sim_ns += abs(st["sim_ns"])
        info = r.get("info") or {}
        evals += info.get("evals", 1)
        if info.get("nontrivial", True):
            digests.add(info.get("state", r["digest"]))
        for s in info.get("states", []):
            states.add(s)
        for k, v in (info.get("count") or {}).items():
            extra[k] = extra.get(k, 0) + v
        if len(samples) < 3 and info.get("sample"):
            samples.append(info["sample"])
    wall = time.monotonic() - t0
    per_hour = int(len(ran) / wall * 3600) if wall else 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(viols),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(digests),
            "rule": meta["rule"],
            "samples": samples or ["none"],
            "simulated_runs": len(ran), "runs_planned": total, "runs_per_hour": per_hour,
            "seeds": f"VERIF_SEED={seed}, run indices 0..{total - 1}",
            "faults_injected": dict(sorted(fired.items())),
            "disk_operations": ops, "process_crashes": crashes, "simulated_processes": procs,
            "simulated_seconds": round(sim_ns / 1e9, 3),
            "distinct_states": len(states), "state_measure": meta.get("state_measure", "not counted"),
            "counts": dict(sorted(extra.items())),
            "workers": nworkers, "known_findings_still_failing": len(known), "harness_errors": len(harness),
            "real_components": meta["real"], "stubbed_components": meta["stub"],
        },
        "assumptions": meta.get("assumptions", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = fn + f".{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, fn)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    scratch = tempfile.mkdtemp(prefix="mtsim-")
    try:
        pool = Pool(rec["property"], scratch, 1)
        job = {"idx": rec["run"], "plan": rec["plan"]} if rec.get("plan") is not None else \
            {"idx": rec["run"], "seed": rec["seed"], "tier": rec["tier"]}
        r = list(pool.map([job]))[0]
        pool.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    v = r.get("violation")
    if v:
        print(f"VIOLATION property={rec['property']} replay={path}")
        print(f"  {v['kind']}: {v['detail']}")
        return 1 if v["kind"] == rec["kind"] else 3
    if r.get("harness"):
        print(r["harness"])
        return 2
    print("not reproduced")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1:]))
