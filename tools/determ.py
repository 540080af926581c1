"""determ.py PROP RUNS: every run twice, with other workers, another order and another hash seed; the logs must be the same."""
import os
import random
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sim.runner import Pool  # noqa: E402


def go(prop, n, workers, order, env):
    sc = tempfile.mkdtemp(prefix="mtsim-")
    p = Pool(prop, sc, workers, env)
    idx = list(range(n))
    random.Random(order).shuffle(idx)
    out = {}
    for r in p.map([{"idx": i, "seed": 1, "tier": "quick"} for i in idx]):
        out[r["idx"]] = r.get("digest") or "harness " + r["harness"][-200:]
    p.close()
    shutil.rmtree(sc)
    return out


prop, n = sys.argv[1], int(sys.argv[2])
a = go(prop, n, 8, 1, {})
b = go(prop, n, 5, 2, {"PYTHONHASHSEED": "7"} if "hash" in sys.argv else {})
bad = sorted(i for i in a if a[i] != b[i])
print(f"{prop}: {n} runs twice, {len(bad)} differ {bad[:10]}")
sys.exit(bool(bad))
