"""C05: a saved experiment comes back complete."""
import json
from pathlib import Path

from sim.world import Violation
from . import expgen as xg
from . import metagen as mg
from .common import digest, fault_plan

ID = "C05"
TIMEOUT = 180
ADDS = ["add_survey", "add_station", "add_run", "add_channel", "add_filter", "set", "set", "remove"]


def generate(rng, tier, idx):
    big = tier != "quick"
    plan = {"exp": xg.gen_experiment(rng, rng.random() < 0.4), "ops": []}
    for _ in range(rng.randint(1, 6 if not big else 14)):
        if rng.random() < 0.4:
            do = rng.choice(ADDS)
            op = {"do": do, "at": [rng.randrange(4) for _ in range(4)]}
            if do == "add_survey":
                op["what"] = xg.gen_survey(rng, False)
            elif do == "add_station":
                op["what"] = xg.gen_station(rng, xg.NAMES["filter"], False)
            elif do == "add_run":
                op["what"] = xg.gen_run(rng, xg.NAMES["filter"], False)
            elif do == "add_channel":
                op["what"] = xg.gen_channel(rng, xg.NAMES["filter"], False)
            elif do == "add_filter":
                op["what"] = xg.gen_filter(rng, False)
            elif do == "set":
                op["level"] = rng.choice(["survey", "station", "run", "channel", "filter"])
                op["fields"] = {k: xg.gen_fields(rng, k, rng.randint(1, 4)) for k in (["survey", "station", "run"] + list(xg.COMPS))}
            else:
                op["level"] = rng.choice(["survey", "station", "run", "channel", "filter"])
            plan["ops"].append(op)
            continue
        form = rng.choice(["json", "json", "xml", "xml", "json text", "dict"])
        op = {"do": "save", "form": form, "required": rng.random() < 0.75, "nested": rng.random() < 0.5, "sort": rng.random() < 0.6,
              "keep": rng.random() < 0.5, "path": rng.random() < 0.5, "old": rng.choice(["none", "none", "longer", "same name"]),
              "element": rng.random() < 0.2, "skip": rng.random() < 0.8}
        if form in ("json", "xml") and rng.random() < 0.5:
            op["faults"] = fault_plan(rng, 4, allow_crash=True)
            op["tear"] = rng.randrange(1 << 30)
        if form in ("json", "xml") and rng.random() < 0.3:
            op["read_faults"] = [dict(f, match="read" if f["match"] in ("w", "write", "mkdir") else f["match"]) for f in fault_plan(rng, 3)]
        plan["ops"].append(op)
    if not any(o["do"] == "save" for o in plan["ops"]):
        plan["ops"].append({"do": "save", "form": "json", "required": True, "nested": False, "sort": True, "keep": False, "path": False,
                            "old": "none", "element": False, "skip": True})
    return plan


def pick(e, at, level):
    """The member an operation is about, or None."""
    def nth(c, i):
        return c[i % len(c)] if len(c) else None
    s = nth(e.surveys, at[0])
    if level == "survey" or s is None:
        return s
    if level == "filter":
        k = s.filters.keys()
        return (s, k[at[1] % len(k)]) if k else None
    t = nth(s.stations, at[1])
    if level == "station" or t is None:
        return t
    r = nth(t.runs, at[2])
    if level == "run" or r is None:
        return r
    return nth(r.channels, at[3])


def change(e, op):
    do, at = op["do"], op["at"]
    if do == "add_survey":
        e.add_survey(xg.make(op["what"]))
        return True
    if do in ("add_station", "add_run", "add_channel", "add_filter"):
        o = pick(e, at, {"add_station": "survey", "add_run": "station", "add_channel": "run", "add_filter": "survey"}[do])
        if o is None:
            return False
        x = xg.make(op["what"])
        if do == "add_filter":
            o.filters[x.name] = x
        else:
            getattr(o, do)(x)
        return True
    o = pick(e, at, op["level"])
    if o is None:
        return False
    if do == "set":
        if op["level"] == "filter":
            o = o[0]
        for f in op["fields"][xg.kind(o)]:
            o.update_attribute(f[0], mg.decode(f[1], f[2]))
        return True
    if op["level"] == "survey":
        e.remove_survey(o.id)
    elif op["level"] == "filter":
        o[0].filters.remove(o[1])
    elif op["level"] == "station":
        pick(e, at, "survey").remove_station(o.id)
    elif op["level"] == "run":
        pick(e, at, "station").remove_run(o.id)
    else:
        pick(e, at, "run").remove_channel(o.component)
    return True


def save(e, op, fn):
    f = op["form"]
    if op["path"] and fn:
        fn = Path(fn)
    if f == "json":
        e.to_json(fn=fn, nested=op["nested"], required=op["required"])
    elif f == "json text":
        return e.to_json(nested=op["nested"], required=op["required"])
    elif f == "dict":
        return e.to_dict(nested=op["nested"], required=op["required"])
    else:
        return e.to_xml(fn=fn, required=op["required"], sort=op["sort"])


def load(op, fn, data):
    from mt_metadata.timeseries import Experiment
    e = Experiment()
    skip = True if not op["required"] else op["skip"] or op["form"] == "xml"
    if op["path"] and fn:
        fn = Path(fn)
    if op["form"] == "json":
        e.from_json(fn, skip_none=skip)
    elif op["form"] == "json text":
        e.from_json(data, skip_none=skip)
    elif op["form"] == "dict":
        e.from_dict(data, skip_none=skip)
    elif op["element"]:
        e.from_xml(element=data, sort=op["sort"], skip_none=skip)
    else:
        e.from_xml(fn=fn, sort=op["sort"], skip_none=skip)
    return e


def default(c, n):
    b = mg.BASE.get(c)
    return (b or {}).get(n)


DERIVED_ON_SAVE = ("northwest_corner.", "southeast_corner.", "time_period.")


PERIOD = {"time_period.start": "start", "time_period.end": "end", "time_period.start_date": "start", "time_period.end_date": "end"}


def widened(a, path, n):
    """A time period is widened to include the members' when they are added; what the member at `path` has then."""
    side = PERIOD[n]
    known = []
    for p, fields in a.items():
        if p[:len(path)] == path and "filter" not in p:
            known += [str(v) for k, v in fields.items() if PERIOD.get(k) == side and v and not str(v).startswith("1980-01-01")]
    if n.endswith("_date"):
        known = [k[:10] for k in known]
    return (min if side == "start" else max)(known) if known else None


def compare(a, b, what, order, xml=False):
    if list(a) != list(b) if order else sorted(map(xg.label, a)) != sorted(map(xg.label, b)):
        miss = [xg.label(p) for p in a if p not in b]
        more = [xg.label(p) for p in b if p not in a]
        raise Violation("members", f"{what}: missing {miss}, extra {more}" if miss or more else
                        f"{what}: order was {[xg.label(p) for p in a]}, comes back as {[xg.label(p) for p in b]}")
    for p in a:
        if a[p]["class"] != b[p]["class"]:
            raise Violation("members", f"{what}: {xg.label(p)} was {a[p]['class']}, comes back as {b[p]['class']}")
        c = [k for k in xg.CLS.values() if k.endswith(":" + a[p]["class"])][0]
        for n, v in a[p].items():
            g = b[p][n]
            if mg.same(v, g):
                continue
            if n in ("run_list", "channels_recorded") and sorted(v or []) == sorted(g or []):
                continue
            if n in PERIOD and not xml and g == widened(a, p, n):
                continue
            d = default(c, n)
            blank = v is None and g in ("", 0.0, [""]) or v == "" and g is None
            if blank or (mg.same(v, d) and mg.same(g, carried(c, n, v))):
                continue
            raise Violation("value lost", f"{what}: {xg.label(p)} {n} was {v!r}, comes back as {g!r}")


def carried(c, n, v):
    from .c17 import carried as k
    from .common import class_by_name
    return k(class_by_name(c), n, v)


def saved_ok(before, after, what):
    """Saving as XML brings what follows from the members up to date; no more."""
    if sorted(map(xg.label, before)) != sorted(map(xg.label, after)):
        raise Violation("changed by saving", f"{what}: members {[xg.label(p) for p in before]} became {[xg.label(p) for p in after]}")
    for p in before:
        for n, v in before[p].items():
            g = after[p][n]
            if mg.same(v, g) or n.startswith(DERIVED_ON_SAVE):
                continue
            if n.split(".")[0] in ("location", "positive") and v == 0:
                continue
            if n == "run_list" and sorted(v) == sorted(g):      # sorted with the runs
                continue
            raise Violation("changed by saving", f"{what}: {xg.label(p)} {n} was {v!r}, is {g!r}")


def execute(plan, world):
    e = xg.experiment(plan["exp"])
    count = {"saves": 0, "loads": 0, "values": 0, "changes": 0, "failed_saves": 0, "crashed_saves": 0, "failed_reads": 0}
    trail = []
    for j, op in enumerate(plan["ops"]):
        if op["do"] != "save":
            if change(e, op):
                count["changes"] += 1
            trail.append([op["do"], len(xg.view(e))])
            continue
        what = f"op {j}, {op['form']}{' required only' if op['required'] else ''}{' sorted' if op['sort'] else ''}"
        fn = world.path(f"o{j}.{op['form'].split()[0]}") if op["form"] in ("json", "xml") else None
        if fn and op["old"] == "longer":
            with open(fn, "w") as f:
                f.write("x" * 100000)
        elif fn and op["old"] == "same name":
            with open(fn, "w") as f:
                f.write("{}")
        before = xg.view(e)
        faults = op.get("faults", [])
        if faults:
            r = world.process(lambda: save(e, op, fn) is not None, faults=faults, tear=op["tear"])
            if r[0] == "crash":
                count["crashed_saves"] += 1
            elif r[0] == "raise":
                count["failed_saves"] += 1
        try:
            data = save(e, op, fn)
        except Exception as x:
            raise Violation("save failed", f"{what}: {type(x).__name__}: {str(x)[:300]}")
        count["saves"] += 1
        after = xg.view(e)
        saved_ok(before, after, what)
        if op["form"] != "xml" and [list(before)] != [list(after)]:
            raise Violation("changed by saving", f"{what}: order {[xg.label(p) for p in before]} became {[xg.label(p) for p in after]}")
        rf = op.get("read_faults", [])
        hard = False

        def reader():
            try:
                return "read", xg.view(load(op, fn, data))
            except Exception as x:
                return "refused", f"{type(x).__name__}: {str(x)[:300]}"
        if fn:
            r = world.process(reader, faults=rf)
            hard = r[0] == "crash" or any(d not in ("short", "EINTR") for d, _ in world.last_fired)
            if r[0] == "ok" and r[1][0] == "read":
                compare(after, r[1][1], what, op["form"] != "xml", op["form"] == "xml")
            elif r[0] == "ok" and not hard:
                raise Violation("load failed", f"{what}: {r[1][1]}")
            elif r[0] == "raise":
                raise Violation("load failed", f"{what}: {r[1:]}")
            else:
                count["failed_reads"] += 1
        try:
            got = load(op, fn, data)
        except Exception as x:
            raise Violation("load failed", f"{what}: {type(x).__name__}: {str(x)[:300]}")
        count["loads"] += 1
        back = xg.view(got)
        count["values"] += sum(len(v) for v in back.values())
        compare(after, back, what, op["form"] != "xml", op["form"] == "xml")
        d = xg.view(e)
        for p in after:
            x = mg.differs(after[p], d.get(p, {}) if p in d else None) if p in d else "gone"
            if x:
                raise Violation("changed by loading", f"{what}: {xg.label(p)}: {x}")
        if op["keep"]:
            e = got
        trail.append(["save", op["form"], op["required"], len(back)])
    d = digest([trail, {xg.label(k): v for k, v in xg.view(e).items()}])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["loads"] > 0,
            "evals": max(1, count["loads"]), "sample": {"members": [xg.label(p) for p in xg.view(e)][:10], "ops": [o["do"] for o in plan["ops"]]}}


def warm():
    mg.warm()
