"""C14: the clock and the environment show only in time stamps."""
import datetime
import json
import os
import random
import re
import time

from sim.helper import Helper
from sim.world import HarnessError, Violation, World
from . import expgen as xg
from . import files as fs
from . import metagen as mg
from . import things as th
from .common import all_classes, class_by_name, class_name, digest

ID = "C14"
TIMEOUT = 300
ZONES = ["UTC", "NPT-5:45", "PST8PDT,M3.2.0,M11.1.0", "LINT-14", "AOE12", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0"]
HELPERS = []
# no time in any object lies in these years
YEARS = list(range(1971, 1979)) + list(range(2045, 2200))


# ------------------------------------------------------------------ generate
def gen_clock(rng):
    """Nanoseconds; often close to where something turns over."""
    y = rng.choice(YEARS)
    k = rng.random()
    if k < 0.5:
        t = datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
    elif k < 0.7:      # close to midnight: another zone has another day
        t = datetime.datetime(y, rng.randint(1, 12), rng.choice([1, 28]), rng.choice([0, 23]), rng.choice([0, 59]), rng.choice([0, 59]))
    elif k < 0.85:     # turn of the year
        t = rng.choice([datetime.datetime(y, 12, 31, 23, 59, 59), datetime.datetime(y, 1, 1, 0, 0, 0)])
    else:              # hours that local time skips or repeats
        t = datetime.datetime(y, rng.choice([3, 10, 11]), rng.randint(1, 31 if y and rng.random() < 0 else 28), rng.choice([1, 2, 3, 9, 10]), rng.randrange(60), 30)
    us = rng.randrange(1, 10**6) // 10 * 10 + rng.randint(1, 9)
    return int((t - datetime.datetime(1970, 1, 1)).total_seconds()) * 10**9 + us * 1000 + rng.choice([0, 0, 789])


def late(rng, spec):
    spec["start"] = rng.randrange(315_532_801, 1_700_000_000)
    return spec


def gen_op(rng, classes):
    k = rng.random()
    if k < 0.12:
        return {"do": "now"}
    if k < 0.42:
        d = fs.gen_object(rng, ("tf", "tf", "exp", "station", "schema", "avg"))
        if d["kind"] == "tf":
            late(rng, d["spec"])
        return {"do": "save", "what": d, "how": fs.gen_how(rng, d), "load": rng.random() < 0.7, "again": rng.random() < 0.3}
    if k < 0.6:
        form, name = rng.choice(fs.shipped())
        return {"do": "read", "form": form, "name": name, "way": rng.choice(fs.readers(form)), "out": rng.choice([None, None, "edi", "xml", "zmm"])}
    if k < 0.8:
        c = rng.choice(classes)
        from . import c17
        return {"do": "meta", "cls": class_name(c), "fields": c17.gen_fields(rng, c, rng.randint(0, 5)), "forms": rng.sample(["dict", "json", "xml", "series", "str", "fields"], rng.randint(1, 3))}
    if k < 0.9:
        v = rng.choice([0, 1, 1_600_000_000, 1_600_000_000.25, 1_600_000_000_123_456_789, "2020-01-01", "2020-03-08T02:30:00", "20200308", "2020-11-01T01:30:00", "01/02/2020", "2020-10-25 02:30:00",
                        "2020-06-01T12:00:00+05:00", "2020-06-01T12:00:00Z", "1979-12-31T23:59:59", "2020-02-30T00:00:00", "June 5, 2021", "2020-12-31T23:59:60", None, 1e12])
        return {"do": "time", "value": v, "as": rng.choice(["MTime", "gps", "field", "date"])}
    from . import c13
    top = c13.gen_top(rng, "experiment", False)
    return {"do": "build", "top": top, "deliveries": c13.deliveries(rng, top), "seed": rng.randrange(1 << 30)}


def generate(rng, tier, idx):
    mg_classes = [c for c in all_classes() if usable(c)]
    n = rng.randint(1, 5 if tier == "quick" else 10)
    ops = [gen_op(rng, mg_classes) for _ in range(n)]
    if rng.random() < 0.3:       # the same work twice
        ops.append(json.loads(json.dumps(rng.choice(ops))))
    envs = []
    for h in range(2):
        order = list(range(len(ops)))
        rng.shuffle(order)
        jumps = [gen_clock(rng) for _ in ops]
        if rng.random() < 0.5:
            jumps.sort()
        envs.append({"helper": h, "tz": rng.choice(ZONES), "order": order, "clock": jumps})
    return {"ops": ops, "clock": gen_clock(rng), "tick": 0, "alone": [gen_clock(rng) for _ in ops], "tz": rng.choice(ZONES), "envs": envs, "key": rng.randrange(1 << 60)}


_USABLE = {}


def usable(c):
    if c not in _USABLE:
        try:
            c()
            _USABLE[c] = bool(mg.menu(c))
        except Exception:
            _USABLE[c] = False
    return _USABLE[c]


# ------------------------------------------------------------------- perform
def text(x):
    return json.dumps(x, default=lambda b: b.hex() if isinstance(b, (bytes, bytearray)) else f"{type(b).__name__}:{b}", sort_keys=False)


def perform(op, d):
    """One piece of work; what came out, as (name, text) pairs."""
    do = op["do"]
    out = []
    if do == "now":
        from mt_metadata.common.mttime import MTime, get_now_utc
        from mt_metadata.transfer_functions.io.emtfxml.metadata.provenance import Provenance
        out.append(("NOW get_now_utc", str(get_now_utc())))
        out.append(("NOW MTime", MTime().now().isoformat()))
        out.append(("NOW str", str(MTime(time_stamp="2020-01-01").now())))
        t = MTime(time_stamp=None)
        t.now()
        out.append(("NOW fields", f"{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}:{t.minutes:02d}:{t.seconds:02d}.{t.microseconds:06d}+00:00"))
        out.append(("NOW epoch", f"{t.epoch_seconds:.6f}"))
        p = Provenance()
        p.to_xml(string=True)
        out.append(("NOW create_time", str(p.create_time)))
    elif do == "save":
        o = fs.make(op["what"])
        fn = os.path.join(d, f"out.{op['how']['form']}")
        for k in range(2 if op["again"] else 1):
            fs.save(o, op["how"], fn)
            with open(fn, "rb") as f:
                out.append((f"file {k}", f.read().decode("latin-1")))
        out.append(("object", text(fs.look(o))))
        if op["load"] and op["how"]["form"] != "avg":
            b = fs.read(op["how"]["form"], fn, fs.readers(op["how"]["form"])[0])
            out.append(("loaded", text(fs.look(b))))
    elif do == "read":
        fn = os.path.join(fs.DATA, op["name"])
        o = fs.read(op["form"], fn, op["way"])
        out.append(("object", text(fs.look(o))))
        if op["way"] == "tf" and op["out"]:
            g = os.path.join(d, f"conv.{op['out']}")
            o.write(g)
            with open(g, "rb") as f:
                out.append(("converted", f.read().decode("latin-1")))
    elif do == "meta":
        c = class_by_name(op["cls"])
        o = c()
        for n, kd, v, w in op["fields"]:
            o.update_attribute(n, mg.decode(kd, v))
        for f in op["forms"]:
            if f == "dict":
                v = text(th.deep(o.to_dict()))
            elif f == "json":
                v = o.to_json()
            elif f == "xml":
                v = o.to_xml(string=True)
            elif f == "series":
                s = o.to_series()
                v = text([[str(i), th.deep(x)] for i, x in s.items()])
            elif f == "str":
                v = str(o) + repr(o)
            else:
                v = text([o.get_attribute_list(), th.deep(o)])
            out.append((f, v))
    elif do == "time":
        from mt_metadata.common.mttime import MDate, MTime
        if op["as"] == "gps":
            out.append(("time", str(MTime(time_stamp=op["value"], gps_time=True))))
        elif op["as"] == "MTime":
            t = MTime(time_stamp=op["value"])
            out.append(("time", f"{t} {t.epoch_seconds} {t.isodate()} {t.isocalendar()}"))
        elif op["as"] == "date":
            out.append(("time", str(MDate(time_stamp=op["value"]))))
        else:
            from mt_metadata.timeseries import Run
            r = Run()
            r.time_period.start = op["value"]
            out.append(("time", str(r.time_period.start) + text(th.deep(r.to_dict()))))
    else:
        from . import c13
        rng = random.Random(op["seed"])
        b = [{"take": i, "by": rng.choice(c13.ROUTES), "seed": rng.randrange(1 << 30), "up": rng.randrange(4)} for i in range(len(op["deliveries"]))]
        rng.shuffle(b)
        o = c13.build({"top": op["top"], "deliveries": op["deliveries"]}, b, {"delivered": 0, "rejected": 0}, [])
        out.append(("built", text(th.deep(o))))
        out.append(("text", str(o)))
    return out


def attempt(op, d):
    os.makedirs(d, exist_ok=True)
    try:
        out = perform(op, d)
    except (HarnessError, Violation):
        raise
    except Exception as e:
        out = [("error", f"{type(e).__name__}: {e}")]
    # the hash of an object, its place in memory and the scratch folder are no contents
    return [(n, re.sub(r" at 0x[0-9a-f]+", " at 0x", v.replace(d, "<DISK>"))) for n, v in out]


def zone(tz):
    os.environ["TZ"] = tz
    time.tzset()


def remote(request):
    """All the work in the order given, under this clock and zone, in one process."""
    root, ops, env = request
    home, cache = os.path.join(root, "home"), os.path.join(root, "cache")
    for p in (home, cache):
        os.makedirs(p, exist_ok=True)
    os.environ["HOME"], os.environ["MT_METADATA_CACHE_DIR"] = home, cache
    zone(env["tz"])
    w = World(os.path.join(root, "disk"))
    out = {}
    for k, i in enumerate(env["order"]):
        w.set_clock(env["clock"][k], 0)
        out[i] = (env["clock"][k], attempt(ops[i], os.path.join(root, "disk", f"o{i}")))
    w.seam.clock_off()
    return out


# ------------------------------------------------------------------- compare
def when(ns):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=ns // 1000)


def tokens(ns):
    t = when(ns)
    return [(t.strftime("%Y-%m-%dT%H:%M:%S.%f"), "<NOW>"), (t.strftime("%Y-%m-%d %H:%M:%S.%f"), "<NOW>"), (t.strftime("%Y-%m-%dT%H:%M:%S"), "<NOW to the second>"),
            (t.strftime("%Y-%m-%d %H:%M:%S"), "<NOW to the second>"), (t.strftime("%Y-%m-%d"), "<today>"), (t.strftime("%Y/%m/%d"), "<today>"), (t.strftime("%m/%d/%Y"), "<today>")]


def plain(v, ns):
    for a, b in tokens(ns):
        v = v.replace(a, b)
    # obspy rounds its own stamps
    return re.sub(r"<NOW to the second>(\.\d+)?", "<NOW>", v)


def same(op, a, b, where, count):
    (ta, oa), (tb, ob) = a, b
    if [n for n, _ in oa] != [n for n, _ in ob]:
        raise Violation("depends on the environment", f"{where}: {[x for x in oa if x[0] == 'error'] or 'works'} or {[x for x in ob if x[0] == 'error'] or 'works'}")
    for (n, x), (_, y) in zip(oa, ob):
        if n == "NOW epoch":
            continue
        count["compared"] += 1
        x, y = plain(x, ta), plain(y, tb)
        if x != y:
            i = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
            raise Violation("depends on the environment", f"{where} {n}: ...{x[max(0, i - 60):i + 60]!r} or ...{y[max(0, i - 60):i + 60]!r}")


def stamps(ns, out, where, count):
    """What is called the current time is the current time, in UTC."""
    t = when(ns)
    for n, v in out:
        if not n.startswith("NOW"):
            continue
        count["stamps"] += 1
        want = t.strftime("%Y-%m-%dT%H:%M:%S.%f") + "+00:00"
        if n == "NOW epoch":
            want = f"{ns // 1000 / 10**6:.6f}"
            ok = abs(float(v) - ns / 1e9) < 1e-5
        else:
            ok = v == want
        if not ok:
            raise Violation("wrong current time", f"{where} {n[4:]}: {v}, the clock says {want}")


def label(op):
    return {"save": lambda: f"saving a {op['what']['kind']} as {op['how']['form']}", "read": lambda: f"reading {op['name']} ({op['way']})", "meta": lambda: op["cls"].rpartition(":")[2]}.get(op["do"], lambda: op["do"])()


def execute(plan, world):
    count = {"compared": 0, "stamps": 0, "works": 0, "errors": 0}
    ops = plan["ops"]
    # each alone, from a fresh start
    ref = {}
    for i, op in enumerate(ops):
        def one(op=op, i=i):
            zone(plan["tz"])
            world.set_clock(plan["alone"][i], 0)
            return attempt(op, world.path(f"a{i}"))
        r = world.process(one)
        if r[0] != "ok":
            raise HarnessError(f"{r}")
        ref[i] = (plan["alone"][i], r[1])
        count["works"] += 1
        count["errors"] += r[1][-1][0] == "error"
        stamps(plan["alone"][i], r[1], f"work {i} alone", count)
    for e, env in enumerate(plan["envs"]):
        h = HELPERS[env["helper"]]
        root = os.path.join(os.path.dirname(world.root), f"h{e}")
        r = h.ask((plan["key"], e, world.root), (root, ops, env))
        if r[0] != "ok":
            raise HarnessError(r[1])
        for i in env["order"]:
            where = f"work {i} ({label(ops[i])}) in another process (zone {env['tz']}, hash seed {h.hashseed}, after {env['order'].index(i)} others)"
            ns, out = r[1][i]
            stamps(ns, out, where, count)
            same(ops[i], ref[i], (ns, out), where, count)
            world.stats["sim_ns"] += abs(ns - plan["alone"][i])
    d = digest([[n, plain(v, ref[i][0])] for i in ref for n, v in ref[i][1]])
    world.stats["fired"]["clock jump"] = sum(len(e["clock"]) for e in plan["envs"]) + len(ops)
    world.stats["fired"]["time zone change"] = 1 + len(plan["envs"])
    world.stats["fired"]["other hash seed"] = len(plan["envs"])
    return {"count": count, "digest": d, "state": d, "states": [digest([label(o), o.get("how"), o.get("forms")]) for o in ops], "nontrivial": len(ops) > 0, "evals": max(1, count["compared"]),
            "sample": {"ops": [label(o) for o in ops], "zones": [plan["tz"]] + [e["tz"] for e in plan["envs"]]}}


def warm_helper():
    from . import c07
    c07.warm()
    mg.warm()


def warm():
    HELPERS.append(Helper(ID, 1, "NPT-5:45", 3_000_000_000_000_000_123))
    HELPERS.append(Helper(ID, 4242, "PST8PDT,M3.2.0,M11.1.0", 150_000_000_123_456_000))
    warm_helper()
    for h in HELPERS:
        h.ready()
