"""C10: independent work does not interfere."""
import gc
import os
import random
import shutil

import numpy as np

from sim import sched
from sim.world import HarnessError, Violation, norm
from . import c17
from . import metagen as mg
from . import things as th
from .common import LIBDIR, class_by_name, digest

ID = "C10"
TIMEOUT = 200
PRISTINE = {}      # class -> everything readable in a fresh object, before anything was done
ALL = ("meta", "meta", "meta", "exp", "exp", "tf", "tf", "listdict", "reader", "reader")


# ---- plans ------------------------------------------------------------------
def gen_task_op(rng):
    op = th.gen_op(rng)
    if rng.random() < 0.25:
        op["do"] = rng.choice(["took", "copy", "fresh", "feed"])
        op["via"] = rng.choice(["copy", "deepcopy", "part", "list"])
    return op


def generate(rng, tier, idx):
    big = tier != "quick"
    threads = idx % 3 == 2
    plan = {"mode": "threads" if threads else "objects", "tick": 0, "clock": 10**18 + rng.randrange(8 * 10**17)}
    k = rng.randint(2, 3 if threads else 4)
    files = rng.random() < 0.2          # transfer functions being read and written
    KINDS = ("tf", "reader") if files else ALL
    first = th.gen(rng, KINDS, rng.random() < 0.3)
    plan["things"] = [first]
    for _ in range(k - 1):
        r = rng.random()
        if r < 0.35:
            plan["things"].append(first)                      # the same definition, made again
        elif r < 0.6 and first["kind"] == "meta":
            d = dict(first, fields=c17.gen_fields(rng, class_by_name(first["cls"]), rng.randint(0, 5)))
            plan["things"].append(d)
        else:
            plan["things"].append(th.gen(rng, KINDS, False))
    n = rng.randint(1, 5 if not big else 12)
    plan["tasks"] = [[gen_task_op(rng) for _ in range(rng.randint(1, n))] for _ in range(k)]
    if files:
        for op in sum(plan["tasks"], []):
            if rng.random() < 0.8:
                op["do"] = rng.choice(["load", "fill", "save", "save", "set"])
    plan["shared"] = {"list": [rng.randint(0, 9) for _ in range(3)], "seed": rng.randrange(1 << 30)}
    if threads:
        style = rng.choice(["dense", "sparse", "mixed", "mixed"])
        pts, x = [], 0
        for _ in range(rng.randint(1, 600) if style == "dense" else rng.randint(1, 40)):
            x += rng.randint(1, 60) if style == "dense" else rng.randint(1, 6000) if style == "sparse" else int(10 ** rng.uniform(0, 4.5))
            pts.append([x, rng.randrange(k)])
        plan["preempt"] = pts
        plan["first"] = rng.randrange(k)
    else:
        order = [i for i, t in enumerate(plan["tasks"]) for _ in t]
        rng.shuffle(order)
        plan["order"] = order
        plan["late"] = [i for i in range(k) if rng.random() < 0.3]      # made only when first used
        plan["drop"] = rng.random() < 0.3
        plan["_shrink"] = ["order", "tasks"]
    return plan


# ---- doing ---------------------------------------------------------------------
def spoil(x, rng, depth=0):
    """What was handed out is the caller's: change it."""
    if isinstance(x, list):
        for v in x[:3]:
            if depth < 3:
                spoil(v, rng, depth + 1)
        x.append("spoilt")
    elif type(x) is dict or type(x).__name__ == "OrderedDict":
        for v in list(x.values())[:6]:
            if depth < 3:
                spoil(v, rng, depth + 1)
        if x and rng.random() < 0.5:
            x.pop(sorted(x, key=str)[0])
        x["spoilt"] = 1
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc" and x.size:
        x += 1


def took(o, rng):
    """Something the object hands out is changed by the one who asked."""
    asks = ["get_all_fields", "get_attribute_list", "to_dict", "nested", "get_required", "model_dump", "schema"]
    if th.sort_of(o) == "tf":
        o = o.survey_metadata if rng.random() < 0.5 else o.station_metadata if len(o.survey_metadata.stations) else o.survey_metadata
    elif th.sort_of(o) == "listdict":
        return True, th.deep(o.keys())
    elif th.sort_of(o) == "reader":
        r = o.station_metadata
        return True, th.deep(r.to_dict(single=True))
    elif rng.random() < 0.3:
        p = th.parts(o)
        o = rng.choice(p) if p else o
    what = rng.choice(asks)
    try:
        if what == "get_all_fields":
            r = o.get_all_fields()
        elif what == "get_attribute_list":
            r = o.get_attribute_list()
        elif what == "nested":
            r = o.to_dict(nested=True)
        elif what == "model_dump":
            r = o.model_dump()
        elif what == "schema":
            r = {k: 0 for k in type(o).model_fields}
        else:
            r = o.to_dict(required=rng.random() < 0.5)
    except Exception as e:
        return True, f"{type(e).__name__}"
    import re
    seen = re.sub(r" at 0x[0-9a-f]+", "", repr(th.deep(r)))
    if what in ("get_all_fields", "get_attribute_list", "to_dict", "nested") and isinstance(r, (dict, list)):
        spoil(r, rng)
    return True, seen


def fresh(o):
    """A new object of a class in use is as new objects always were."""
    out = []
    todo = [o.survey_metadata if th.sort_of(o) == "tf" else th.read(o, "station_metadata") if th.sort_of(o) == "reader" else o]
    if isinstance(todo[0], str):
        return False, None
    todo += th.parts(todo[0])[:6]
    for x in todo:
        c = type(x)
        if not mg.model(c) or c.__name__ in ("MTime", "MDate"):
            continue
        n = f"{c.__module__}:{c.__qualname__}"
        if n not in PRISTINE:
            continue
        d = th.first_difference(PRISTINE[n], th.deep(c()))
        if d:
            raise Violation("new object not new", f"{n}{d}")
        out.append(n)
    return bool(out), out


def feed(o, rng, shared):
    """Give the object a list, dictionary or array that others were given too."""
    if th.sort_of(o) == "tf":
        z = shared["array"].get(len(o.period))
        if z is None:
            z = shared["array"][len(o.period)] = np.ones((len(o.period), 2, 2), dtype=complex) * 5
        o.impedance = z
        d = shared["dict"].setdefault("survey", {"id": "big", "name": "x", "comments": "given"})
        o.survey_metadata.from_dict(d)
        return True, None
    if not mg.model(type(o)):
        return False, None
    n = f"{type(o).__module__}:{type(o).__qualname__}"
    if n not in shared["dict"]:
        rs = random.Random(shared["seed"])
        f = [x for x in c17.gen_fields(rs, type(o), 8) if x[0] != "filters" and x[1] != "models"]      # members stay members
        shared["dict"][n] = {x[0]: mg.decode(x[1], x[2]) for x in f}
    d = shared["dict"][n]
    if rng.random() < 0.5:
        o.from_dict(d)
    else:
        for k, v in d.items():
            o.update_attribute(k, v)
    return True, None


def do(o, op, world, tag, shared):
    """One operation; what came of it, as plain data."""
    rng = random.Random(op["r"])
    try:
        if op["do"] == "took":
            done, r = took(o, rng)
        elif op["do"] == "fresh":
            done, r = fresh(o)
        elif op["do"] == "feed":
            done, r = feed(o, rng, shared)
        elif op["do"] == "copy":
            src, c = th.copy_of(o, dict(op))
            done = c is not None
            r = th.deep(c) if done else None
            if done:
                th.grow(c, rng) if mg.model(type(c)) else None
        else:
            done, r = th.apply(o, op, world, tag)
        return ["ok", bool(done), r]
    except Violation:
        raise
    except Exception as e:
        return ["error", type(e).__name__, str(e).replace(world.root, "<DISK>")[:300]]


def newshared(plan):
    return {"dict": {}, "array": {}, "seed": plan["shared"]["seed"]}


def files_under(world, i):
    top = world.path(f"t{i}")
    out = {}
    for d, _, fs in os.walk(top):
        for f in sorted(fs):
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def alone(plan, world, i):
    """Task i with nobody else about."""
    os.makedirs(world.path(f"t{i}"), exist_ok=True)

    def body():
        o = th.make(plan["things"][i])
        sh = newshared(plan)
        out = [do(o, op, world, f"t{i}/o{j}", sh) for j, op in enumerate(plan["tasks"][i])]
        return out, th.deep(o)
    r = world.process(body)
    if r[0] != "ok":
        raise HarnessError(f"alone: {r}")
    f = files_under(world, i)
    shutil.rmtree(world.path(f"t{i}"))
    os.makedirs(world.path(f"t{i}"))
    return r[1][0], r[1][1], f


def same(what, a, b):
    d = th.first_difference(a, b)
    if d:
        raise Violation("differs from running alone", f"{what}{d}")


def compare(plan, world, i, want, got, dump):
    kind = plan["things"][i]["kind"]
    for j, (a, b) in enumerate(zip(want[0], got)):
        same(f"result of op {j} ({plan['tasks'][i][j]['do']}) of task {i} ({kind}): ", a, b)
    same(f"object of task {i} ({kind}) in the end: ", want[1], dump)
    f = files_under(world, i)
    if sorted(f) != sorted(want[2]):
        raise Violation("differs from running alone", f"files of task {i} ({kind}): {sorted(f)}, alone {sorted(want[2])}")
    for n in f:
        if f[n] != want[2][n]:
            at = next((x for x, (p, q) in enumerate(zip(f[n], want[2][n])) if p != q), min(len(f[n]), len(want[2][n])))
            raise Violation("differs from running alone", f"file {n} of task {i} ({kind}): at byte {at} {f[n][at:at + 40]!r}, alone {want[2][n][at:at + 40]!r}")


def objects(plan, world, want):
    """Several objects in one task, operations interleaved."""
    count = {"operations": 0, "compared": 0, "objects": len(plan["things"])}
    k = len(plan["things"])
    late = set(plan["late"])
    objs = {i: th.make(plan["things"][i]) for i in range(k) if i not in late}
    dumps = {i: th.deep(o) for i, o in objs.items()}
    got = [[] for _ in range(k)]
    shared = newshared(plan)
    trail = []
    for i in plan["order"]:
        if i >= k or len(got[i]) >= len(plan["tasks"][i]):
            continue
        if i not in objs:
            objs[i] = th.make(plan["things"][i])
            dumps[i] = th.deep(objs[i])
        op = plan["tasks"][i][len(got[i])]
        got[i].append(do(objs[i], op, world, f"t{i}/o{len(got[i])}", shared))
        dumps[i] = th.deep(objs[i])
        count["operations"] += got[i][-1][0] == "ok" and got[i][-1][1]
        trail.append([i, op["do"], got[i][-1][0]])
        for q, x in objs.items():
            if q == i:
                continue
            count["compared"] += 1
            d = th.first_difference(dumps[q], th.deep(x))
            if d:
                raise Violation("changed by work on another object", f"{op['do']} on {plan['things'][i]['kind']} {i} changed {type(x).__name__} {q}{d}")
        if plan["drop"] and len(got[i]) == len(plan["tasks"][i]) and len(objs) > 1:
            same_i = objs.pop(i)
            compare(plan, world, i, want[i], got[i], dumps[i])
            del same_i
            gc.collect()
            for q, x in objs.items():
                d = th.first_difference(dumps[q], th.deep(x))
                if d:
                    raise Violation("changed by work on another object", f"deleting object {i} changed {type(x).__name__} {q}{d}")
    for i in range(k):
        if i in objs and len(got[i]) == len(plan["tasks"][i]):
            compare(plan, world, i, want[i], got[i], dumps[i])
            fresh(objs[i])
    return count, trail


def threads(plan, world, want):
    count = {"operations": 0, "compared": 0, "objects": len(plan["things"])}

    def body():
        S = sched.Scheduler(plan["preempt"], LIBDIR)
        world.sched = S

        def task(i):
            def run():
                o = th.make(plan["things"][i])
                sh = newshared(plan)
                out = [do(o, op, world, f"t{i}/o{j}", sh) for j, op in enumerate(plan["tasks"][i])]
                return out, th.deep(o)
            return run
        res = S.run([task(i) for i in range(len(plan["things"]))], plan["first"])
        world.sched = None
        for i, r in enumerate(res):
            if r[0] != "ok":
                raise Violation("task failed", f"task {i}: {r[1:]} ({S.failed})")
            compare(plan, world, i, want[i], r[1][0], r[1][1])
        return [r[1][0] for r in res], S.n, S.switches, S.trace[:300]
    r = world.process(body)
    if r[0] != "ok":
        raise Violation("task failed", f"{r}")
    outs, n, sw, trace = r[1]
    count["operations"] = sum(1 for o in outs for x in o if x[0] == "ok" and x[1])
    count["compared"] = len(outs)
    count["scheduling_points"] = n
    count["switches"] = sw
    return count, trace


def execute(plan, world):
    want = [alone(plan, world, i) for i in range(len(plan["things"]))]
    if plan["mode"] == "objects":
        count, trail = objects(plan, world, want)
    else:
        count, trail = threads(plan, world, want)
    d = digest([trail, count, [digest(norm(repr(w[:2]), world.root)) for w in want]])
    return {"count": count, "digest": d, "state": d, "states": [digest(trail)], "nontrivial": count["operations"] > 1,
            "evals": max(1, count["compared"]), "sample": {"mode": plan["mode"], "things": [t.get("cls") or t["kind"] for t in plan["things"]],
                                                           "ops": [[o["do"] for o in t] for t in plan["tasks"]]}}


def warm():
    from . import tfio
    mg.warm()
    tfio.warm()
    for n in mg.usable():
        try:
            PRISTINE[n] = th.deep(class_by_name(n)())
        except Exception:
            pass
