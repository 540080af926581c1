"""C02-C04: chains of saves and loads of transfer functions."""
import os
import random

import numpy as np

from sim.world import Violation
from .common import LIBDIR, digest, fault_plan
from . import tfgen

FMTS = ("edi", "xml", "zmm")
EXAMPLES = sorted(f for f in os.listdir(os.path.join(LIBDIR, "data", "transfer_functions"))
                  if f.rsplit(".", 1)[-1] in ("edi", "xml", "zmm", "zss", "j", "avg") and f != "example.xml")   # that one is refused


def generate(rng, tier, idx, target):
    spec = tfgen.gen_spec(rng)
    if target == "xml":          # the format admits letters and digits only
        spec["station"] = spec["station"].replace("_", "") or "s"
    if target == "zmm":
        spec["n"] = min(spec["n"], 25)
        if spec["mag"] == 6 and rng.random() < 0.5:
            spec["mag"] = 0
    if rng.random() < 0.25:      # one of the files that come with the library
        spec["file"] = rng.choice(EXAMPLES)
        spec["azimuth"] = "file"
    hops = []
    for h in range(rng.randint(1, 4)):
        fmt = target if rng.random() < 0.6 or h == 0 else rng.choice(FMTS)
        hop = {"fmt": fmt, "before": [rng.choice(FMTS) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
               "faults": fault_plan(rng, 6) if rng.random() < 0.5 else [], "tear": rng.randrange(1 << 30),
               "same": rng.random() < 0.5,       # retry in the process that failed
               "old": rng.random() < 0.3,        # a longer file of that name is already there
               "via": rng.choice(["write", "write", "save_dir", "obj"]),
               "clock": rng.randrange(0, 2_000_000_000)}
        if fmt == "edi":
            hop["kw"] = rng.choice([{}, {}, {"latlon_format": "dd"}, {"longitude_format": "LONG"},
                                    {"latlon_format": "dd", "longitude_format": "LONG"}])
        if fmt == "zmm":
            hop["rot"] = rng.random() < 0.4
        hops.append(hop)
    return {"spec": spec, "ops": hops}


def read_file(path, fmt, rot=False):
    from mt_metadata.transfer_functions.core import TF
    tf = TF(fn=path)
    if fmt == "zmm":
        tf.read(rotate_to_measurement_coordinates=rot)
    else:
        tf.read()
    return tf


def source(plan, prev):
    if prev is None:
        spec = plan["spec"]
        if not spec.get("file"):
            return tfgen.build(spec)
        tf = read_file(os.path.join(LIBDIR, "data", "transfer_functions", spec["file"]), spec["file"].rsplit(".", 1)[-1])
        # names every format admits
        tf.station, tf.survey = spec["station"], spec["survey"]
        tf.survey_metadata.project = spec["project"]
        if not spec.get("keep_geographic_name"):
            tf.survey_metadata.geographic_name = ""
        return tf
    return read_file(*prev)


def save(tf, hop, path, fmt, kw):
    if hop["via"] == "save_dir":
        tf.write(save_dir=os.path.dirname(path), fn_basename=os.path.basename(path).rsplit(".", 1)[0], file_type=fmt, **kw)
    elif hop["via"] == "obj":
        obj = {"edi": tf.to_edi, "xml": tf.to_emtfxml, "zmm": tf.to_zmm}[fmt]()
        obj.write(path, **kw)
    else:
        tf.write(path, **kw)


def writer(plan, world, i, prev, path):
    """One process: get the transfer function, save it elsewhere, save it here."""
    hop = plan["ops"][i]
    world.disk_on()
    tf = source(plan, prev)
    world.disk_off()
    before = tfgen.observe(tf)
    skipped = []
    for j, f in enumerate(hop["before"]):
        try:
            tf.write(world.path(f"side{i}_{j}.{f}"))
        except Exception as e:
            skipped.append(f"{f}: {type(e).__name__}: {e}")
    world.disk_on(hop["faults"])
    err = None
    try:
        save(tf, hop, path, hop["fmt"], hop.get("kw", {}))
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    world.disk_off()
    if world.stats["fired"] and hop["same"]:
        err = None
        world.disk_on()
        try:
            save(tf, hop, path, hop["fmt"], hop.get("kw", {}))
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        world.disk_off()
        return before, err, True, skipped
    return before, err, not world.stats["fired"], skipped


def reader(prev):
    tf = read_file(*prev)
    return tfgen.observe(tf)


# ---- what a format keeps, and how exactly -------------------------------
def order(a):
    return np.argsort(a, kind="stable")


def near(name, a, b, rel, mag=0.0, missing=True):
    """b is a to the printed digits; NaN may come back as missing (0, NaN, 1E32)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{name} differs", f"{name}: shape {a.shape} saved, {b.shape} read")

    def part(x, y):
        x = np.where(np.abs(x) > 9e31, np.nan, x)
        if missing:
            ok = np.isnan(x) & (np.isnan(y) | (y == 0) | (np.abs(y) > 9e31))
        else:
            ok = np.isnan(x) & np.isnan(y)
        with np.errstate(invalid="ignore"):
            ok |= np.abs(x - y) <= rel * np.abs(x) + mag
        return ok
    if np.iscomplexobj(a) or np.iscomplexobj(b):
        # a complex value one part of which is not a number is missing as a whole
        nan = np.isnan(a) | (np.abs(a) > 9e31)
        ok = part(a.real, b.real) & part(a.imag, b.imag)
        ok |= nan & ((b == 0) | np.isnan(b) | (np.abs(b) > 9e31))
    else:
        ok = part(a, b)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Violation(f"{name} differs", f"{name}{list(i)}: {a[i]!r} saved, {b[i]!r} read ({int((~ok).sum())} of {ok.size} differ)")


def scalar(name, a, b, tol=None):
    if tol is None:
        if a != b:
            raise Violation(f"{name} differs", f"{name}: {a!r} saved, {b!r} read")
    elif not (b is not None and abs(a - b) <= tol):
        raise Violation(f"{name} differs", f"{name}: {a!r} saved, {b!r} read")


def compare(fmt, hop, a, b, rot=False):
    scalar("station name", a["station"], b["station"])
    if fmt == "edi":
        dd = hop.get("kw", {}).get("latlon_format") == "dd"
        scalar("latitude", a["lat"], b["lat"], 6e-7 if dd else 2e-8)
        scalar("longitude", a["lon"], b["lon"], 6e-7 if dd else 2e-8)
        scalar("elevation", a["elev"], b["elev"], 6e-4)
        # frequency is printed with seven digits
        ia, ib = order(a["period"]), order(b["period"])
        near("period", a["period"][ia], b["period"][ib], 6e-7)
        keep, rel = ["z", "zerr", "t", "terr"], 6e-7
    elif fmt == "xml":
        scalar("survey", a["survey"], b["survey"])
        scalar("project", a["project"], b["project"])
        scalar("latitude", a["lat"], b["lat"], 1e-6)
        scalar("longitude", a["lon"], b["lon"], 1e-6)
        scalar("elevation", a["elev"], b["elev"], 1e-3)
        scalar("start", a["start"], b["start"])
        # a site whose end is not set, or lies before its start, is written as ending when it starts
        scalar("end", max(a["start"], a["end"]), b["end"])
        ia = ib = np.arange(len(a["period"]))
        near("period", a["period"], b["period"], 1e-12)
        keep, rel = ["z", "zerr", "t", "terr", "isp", "res"], 6e-7
    else:
        scalar("latitude", a["lat"], b["lat"], 6e-4)
        scalar("longitude", a["lon"], b["lon"], 6e-4)
        ia = ib = np.arange(len(a["period"]))
        near("period", a["period"], b["period"], 1.1e-6)
        keep, rel = ["z", "t", "isp", "res"], 6e-5
    for k in keep:
        x, y = a[k][ia], b[k][ib]
        if k == "res" and fmt == "xml":      # the format has one block for e and one for h
            near(k, x[:, :2, :2], y[:, :2, :2], rel)
            near(k, x[:, 2:, 2:], y[:, 2:, 2:], rel)
            continue
        if k.endswith("err") and fmt == "xml":
            y = np.where(y >= 9.9e15, np.nan, y)   # the root of the 1E32 that stands for a missing variance
            x = np.where(x >= 9.9e15, np.nan, x)
        # turning by 0 and 90 degrees leaves rounding noise
        near(k, x, y, rel, 1e-12 * float(np.abs(x).max(initial=0)) if rot else 0.0)


def execute(plan, world, target):
    prev = None
    count = {"hops": 0, "checked": 0, "retries": 0, "values": 0, "skipped": 0}
    trail = []
    for i, hop in enumerate(plan["ops"]):
        fmt = hop["fmt"]
        world.set_clock(hop["clock"] * 10**9)
        path = world.path(f"tf{i}.{fmt}")
        if hop["old"]:
            with open(path, "wb") as f:
                f.write(b"old and much longer than nothing\n" * 4000)

        def go(h):
            p2 = dict(plan, ops=[h if k == i else o for k, o in enumerate(plan["ops"])])
            return world.process(writer, p2, world, i, prev, path, tear=hop["tear"])
        r = go(hop)
        retried = False
        if r[0] == "crash" or (r[0] == "ok" and not r[1][2]):
            retried = True
            count["retries"] += 1
            r = go(dict(hop, faults=[]))
        if r[0] != "ok" or r[1][1]:
            why = f"{r[1]}: {r[2]}" if r[0] == "raise" else str(r[1][1])
            if fmt == target:
                raise Violation("save failed", f"hop {i} to {fmt}{' (repeated)' if retried else ''}: {why}")
            count["skipped"] += 1
            continue
        before = r[1][0]
        rot = hop.get("rot", False) and plan["spec"]["azimuth"] == "std" and not np.isnan(before["z"]).any() and not np.isnan(before["t"]).any()
        here = (path, fmt, rot)
        q = world.process(reader, here)
        if q[0] != "ok":
            if fmt == target:
                raise Violation("load failed", f"hop {i} from {fmt}: {q[1]}: {q[2]}")
            count["skipped"] += 1
            continue
        count["hops"] += 1
        if fmt == target:
            compare(fmt, hop, before, q[1], rot)
            count["checked"] += 1
            count["values"] += sum(np.size(q[1][k]) for k in ("z", "t", "zerr", "terr", "isp", "res"))
        trail.append([fmt, len(before["period"]), sorted(world.stats["fired"])])
        prev = here
    world.stats["sim_ns"] += sum(h["clock"] for h in plan["ops"]) % 10**9
    d = digest([plan["spec"], trail, {k: len(v) for k, v in sorted(world.snapshot().items())}])
    return {"count": count, "digest": d, "states": [digest(t) for t in trail], "state": digest([plan["spec"], trail]),
            "nontrivial": count["checked"] > 0, "evals": max(1, count["checked"]),
            "sample": {"spec": plan["spec"], "hops": [{k: h[k] for k in ("fmt", "before", "faults")} for h in plan["ops"]]}}


def warm():
    """Look up every field tree before forking, as a long-lived process has."""
    import os
    import random as _r
    import shutil
    import tempfile
    d = tempfile.mkdtemp()
    try:
        rng = _r.Random(7)
        spec = tfgen.gen_spec(rng)
        spec.update(comps="zt", cov=True, err=True, azimuth="std", n=3, station="a1", nruns=2)
        for fmt in FMTS:
            try:
                p = os.path.join(d, f"w.{fmt}")
                tfgen.build(spec).write(p)
                tfgen.observe(read_file(p, fmt))
            except Exception:
                pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
