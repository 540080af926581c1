"""Warm process: imports the library once, then forks one process per run.

stdin: one JSON job per line {"idx", "seed", "tier"} or {"idx", "plan"}
stdout: one JSON result per line
"""
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from sim import sched  # noqa: E402
from sim.props.common import as_text  # noqa: E402
from sim.world import (HarnessError, SimHang, Violation, World, _recv, _send,  # noqa: E402
                       norm)


def warm(modules_extra=()):
    import warnings
    warnings.simplefilter("ignore")
    import numpy, pandas, xarray, pydantic, loguru, scipy, requests  # noqa: F401,E401
    import obspy, lxml.etree  # noqa: F401,E401
    memo_crs()
    sched.install_locks()
    import mt_metadata  # noqa: F401
    import pkgutil
    for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    from loguru import logger
    logger.remove()
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    src = os.path.realpath(mt_metadata.__file__)
    if not src.startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError(f"mt_metadata came from {src}, not {REPO}")


def memo_crs():
    """pyproj answers the same for the same name, slowly; ask it once."""
    from pyproj import CRS
    plain = CRS.from_user_input.__func__
    seen = {}

    def from_user_input(cls, value, **kw):
        if kw or not isinstance(value, (str, int)):
            return plain(cls, value, **kw)
        k = (cls, type(value), value)
        if k not in seen:
            seen[k] = plain(cls, value)
        return seen[k]
    CRS.from_user_input = classmethod(from_user_input)


def silence():
    """Library code prints; keep the protocol stream clean."""
    out = os.dup(1)
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    return os.fdopen(out, "w", buffering=1)


def seed_of(prop, seed, idx):
    h = hashlib.sha256(f"{prop}/{seed}/{idx}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def raised_in_library(e):
    """Whether the error came out of a call the harness made into mt_metadata."""
    from sim.props.common import LIBDIR
    here = os.path.dirname(os.path.abspath(__file__))
    files, tb = [], e.__traceback__
    while tb:
        files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    last = max([i for i, f in enumerate(files) if f.startswith(here + os.sep)], default=-1)
    return any(f.startswith(LIBDIR + os.sep) for f in files[last + 1:])


def run_child(mod, job, root, w):
    os.environ["HOME"] = os.path.join(root, "home")
    try:
        os.makedirs(root, exist_ok=True)
        s = seed_of(mod.ID, job.get("seed", 0), job["idx"])
        random.seed(s)
        import numpy
        numpy.random.seed(s & 0xFFFFFFFF)
        disk = os.path.join(root, "disk")
        world = World(disk)
        world.tier = job.get("tier", "quick")
        cache = os.path.join(root, "cache")
        os.makedirs(cache, exist_ok=True)
        os.makedirs(os.environ["HOME"], exist_ok=True)
        os.environ["MT_METADATA_CACHE_DIR"] = cache
        plan = job.get("plan")
        if plan is None:
            plan = mod.generate(random.Random(s), job.get("tier", "quick"), job["idx"])
            plan = json.loads(json.dumps(plan))
        world.set_clock(plan.get("clock", 1_700_000_000_000_000_000), plan.get("tick", 1000))
        out = {"idx": job["idx"], "violation": None, "plan": plan}
        info = {}
        try:
            info = mod.execute(plan, world) or {}
        except Violation as v:
            out["violation"] = {"kind": v.kind, "detail": norm(v.detail, disk)[:2000]}
        except HarnessError:
            raise
        except Exception as e:
            if not raised_in_library(e):
                raise
            # a call every intact tree answers
            out["violation"] = {"kind": "unexpected error", "detail": norm(f"{type(e).__name__}: {e}", disk)[:2000]}
        world.seam.off()
        sim_ns = world.seam.now() - plan.get("clock", 1_700_000_000_000_000_000)
        world.seam.clock_off()
        st = world.stats
        st["sim_ns"] += sim_ns
        out["stats"] = st
        out["info"] = info
        log = json.dumps([out["violation"], info.get("digest"), st["fired"], st["ops"], st["crashes"]],
                         sort_keys=True, default=as_text)
        out["digest"] = hashlib.sha256(log.encode()).hexdigest()[:16]
        _send(w, json.dumps(out, default=as_text).encode())
        os._exit(0)
    except SystemExit:
        os._exit(98)
    except BaseException:
        try:
            _send(w, json.dumps({"idx": job["idx"], "harness": traceback.format_exc()[-3000:]}).encode())
        finally:
            os._exit(97)


def main():
    prop = sys.argv[1]
    scratch = sys.argv[2]
    out = silence()
    warm()
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    if hasattr(mod, "warm"):
        mod.warm()
    gc.collect()
    gc.freeze()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        root = os.path.join(scratch, f"r{os.getpid()}_{n}")
        r, w = os.pipe()
        t = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out.close()
            run_child(mod, job, root, w)
        os.close(w)
        msg, status = _recv(r, pid, job.get("timeout", getattr(mod, "TIMEOUT", 120)))
        if msg is None:
            res = {"idx": job["idx"], "harness": f"run ended without a report: {status}", "timeout": status == "timeout"}
        else:
            res = json.loads(msg)
        res["wall"] = time.monotonic() - t
        shutil.rmtree(root, ignore_errors=True)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
