"""C06: metadata objects survive being saved and loaded."""
import json
from pathlib import Path

from sim import sched
from sim.world import Violation
from . import metagen as mg
from .c17 import carried, gen_fields, ready, WEIGHTY
from .common import LIBDIR, class_by_name, class_name, digest, fault_plan

ID = "C06"
TIMEOUT = 120
FORMS = ["dict", "dict", "json", "json", "file", "file", "xml", "series"]


def xml_ok(cls):
    """The general XML form; a few classes have one of their own, for EMTF XML only."""
    from mt_metadata.base import MetadataBase
    return cls.to_xml is MetadataBase.to_xml and cls.from_xml is MetadataBase.from_xml


def generate(rng, tier, idx):
    names = [n for n in mg.usable() if not n.endswith(":Comment")]
    heavy = [n for n in names if n.split(":")[1] in WEIGHTY]
    objs = [rng.choice(heavy if rng.random() < 0.35 else names) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        objs.append(objs[0])
    ops = []
    for i, n in enumerate(objs):
        cls = class_by_name(n)
        f = gen_fields(rng, cls, rng.randint(1, max(1, len(mg.menu(cls)))))
        have = {x[0] for x in f}
        for name, kind, p in mg.menu(cls):
            if name in must_set(cls) and name not in have:
                v, w = rng.choice(p)
                f.append([name, kind, v, w])
        ops.append({"do": "set", "obj": i, "fields": f})
    for _ in range(rng.randint(2, 8 if tier == "quick" else 20)):
        i = rng.randrange(len(objs))
        cls = class_by_name(objs[i])
        if rng.random() < 0.25:
            ops.append({"do": "set", "obj": i, "fields": gen_fields(rng, cls, rng.randint(1, 4))})
            continue
        form = rng.choice(FORMS)
        if form == "xml" and not xml_ok(cls):
            form = "json"
        # entries that were not set can be left out on the way in from a dictionary or XML only
        op = {"do": "save", "obj": i, "form": form, "nested": rng.random() < 0.5, "single": form == "dict" and rng.random() < 0.4,
              "required": form not in ("dict", "xml") or rng.random() < 0.6, "indent": rng.choice([None, 0, 2, 4]), "load": rng.random() < 0.4,
              "keep": rng.random() < 0.5, "path": rng.random() < 0.5, "ctor": rng.random() < 0.15}
        if rng.random() < 0.2:
            op["interrupt"] = rng.randint(1, 400)
        if form == "file":
            op["faults"] = [dict(f, match="read" if f["match"] in ("w", "write", "mkdir") else f["match"])
                            for f in fault_plan(rng, 3, allow_crash=True)] if rng.random() < 0.5 else []
        ops.append(op)
    return {"objs": objs, "ops": ops}


_MUST = {}


def must_set(cls):
    """Fields whose unset state is not a value one may assign: an object
    without them is unfinished and cannot be expected to load."""
    if cls not in _MUST:
        out = set()
        for n, v in mg.BASE[class_name(cls)].items():
            try:
                cls().update_attribute(n, v)
            except Exception:
                out.add(n)
        _MUST[cls] = out
    return _MUST[cls]


def save(obj, op):
    f = op["form"]
    if f == "dict":
        return obj.to_dict(nested=op["nested"], single=op["single"], required=op["required"])
    if f in ("json", "file"):
        return obj.to_json(nested=op["nested"], indent=op["indent"], required=op["required"])
    if f == "xml":
        return obj.to_xml(string=True, required=op["required"])
    if f == "series":
        return obj.to_series(required=op["required"])


def text(x):
    if isinstance(x, str):
        return x
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    return json.dumps(x, sort_keys=True, default=str)


def load(cls, op, data, world):
    import xml.etree.ElementTree as et
    f = op["form"]
    o = cls()
    if f == "dict":
        if op["ctor"] and op["single"] and op["nested"]:
            return cls(**{k: v for k, v in data.items() if v is not None and not (isinstance(v, str) and v == "")})
        if not op["required"]:
            o.from_dict(data, skip_none=True)
        else:
            (o.load if op["load"] and data else o.from_dict)(data)
    elif f == "json":
        (o.load if op["load"] else o.from_json)(data)
    elif f == "file":
        p = data
        if op["path"] and not op["load"]:
            p = Path(data)
        (o.load if op["load"] else o.from_json)(p)
    elif f == "xml":
        (o.load if op["load"] else o.from_xml)(et.fromstring(data.encode()))
    elif f == "series":
        (o.load if op["load"] else o.from_series)(data)
    return o


def compare(want, got, given, what, cls):
    for n, v in want.items():
        g = got[n]
        if mg.same(v, g):
            continue
        if n not in given and (v is None and g in ("", 0.0) or v == "" and g is None):
            continue          # nothing, written as an empty entry
        if n not in given and mg.same(g, carried(cls, n, v)):
            continue          # a default, written out and normalised on the way in
        raise Violation("value lost", f"{what}: {n} was {v!r}, comes back as {g!r}")


def execute(plan, world):
    plan = dict(plan, ops=ready(plan["ops"]))
    classes = [class_by_name(n) for n in plan["objs"]]
    objs = [c() for c in classes]
    names = [[n for n, _, _ in mg.menu(c)] for c in classes]
    given = [set() for _ in objs]
    count = {"saves": 0, "loads": 0, "values": 0, "interrupts": 0, "refused_reads": 0, "crashed_reads": 0, "reads_repeated": 0}
    trail = []
    want = [mg.state(o, n) for o, n in zip(objs, names)]

    def check(when):
        for i, o in enumerate(objs):
            d = mg.differs(want[i], mg.state(o, names[i]))
            if d:
                raise Violation("object changed", f"{class_name(classes[i])} (object {i}) {when}: {d}")
    for j, op in enumerate(plan["ops"]):
        i = op["obj"]
        cls, obj = classes[i], objs[i]
        if op["do"] == "set":
            for f in op["fields"]:
                obj.update_attribute(f[0], f[2])
                given[i].add(f[0])
            want[i] = mg.state(obj, names[i])
            trail.append(["set", plan["objs"][i], len(op["fields"])])
            continue
        what = f"{class_name(cls)}, op {j}, {op['form']}{' nested' if op['nested'] else ''}{' required only' if op['required'] else ''}"
        if op.get("interrupt"):
            try:
                with sched.InterruptAt(LIBDIR, op["interrupt"]):
                    save(obj, op)
            except KeyboardInterrupt:
                count["interrupts"] += 1
                world.stats["fired"]["interrupt"] = world.stats["fired"].get("interrupt", 0) + 1
            check(f"after an interrupted save, op {j}")
        try:
            data = save(obj, op)
            first = text(data)
        except Exception as e:
            raise Violation("save failed", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        count["saves"] += 1
        check(f"after being saved, op {j} ({op['form']})")
        if op["form"] == "file":
            fn = world.path(f"o{j}.json")
            with open(fn, "w") as f:
                f.write(data)
            data = fn

            def reader():
                try:
                    o = load(cls, op, data, world)
                except Exception as e:
                    return "refused", f"{type(e).__name__}: {e}"
                return "read", mg.state(o, names[i]), text(save(o, op))
            r = world.process(reader, faults=op["faults"])
            if r[0] == "crash":
                count["crashed_reads"] += 1
            hard = r[0] == "crash" or any(d not in ("short", "EINTR") for d, _ in world.last_fired)
            if r[0] == "ok" and r[1][0] == "refused" and hard:
                count["refused_reads"] += 1
            elif r[0] == "ok" and r[1][0] == "refused":
                raise Violation("load failed", f"{what}: {r[1][1][:300]}")
            elif r[0] == "ok":
                compare(want[i], r[1][1], given[i], what, cls)
            elif r[0] == "raise":
                raise Violation("load failed", f"{what}: {r[1]}: {r[2]}")
            if hard:
                count["reads_repeated"] += 1
                op2 = dict(op, faults=[])
                r = world.process(reader)
                if r[0] != "ok" or r[1][0] != "read":
                    raise Violation("load failed", f"{what}: after a failed read: {str(r[1])[:300]}")
                compare(want[i], r[1][1], given[i], what, cls)
        try:
            got = load(cls, op, data, world)
        except Exception as e:
            raise Violation("load failed", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        count["loads"] += 1
        back = mg.state(got, names[i])
        count["values"] += len(back)
        compare(want[i], back, given[i], what, cls)
        if op["form"] == "dict" and text(data) != first:
            raise Violation("input changed", f"{what}: loading changed the dictionary it was given")
        again = text(save(got, op))
        same_blank = reads(obj, cls) == reads(got, cls)
        if same_blank and again != first:
            raise Violation("saved differently", f"{what}: {diff(first, again)}")
        check(f"after op {j} was loaded elsewhere")
        if op["keep"]:
            objs[i] = got
            want[i] = back
        trail.append(["save", plan["objs"][i], op["form"], op["nested"], op["required"]])
    d = digest([trail, want])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["loads"] > 0,
            "evals": max(1, count["loads"]), "sample": {"objs": plan["objs"], "ops": plan["ops"][:3]}}


def reads(obj, cls):
    """Every field that can be read, as text."""
    out = {}
    for n in obj.get_attribute_list():
        if n.split(".")[0] in cls.model_fields:
            try:
                out[n] = text(obj.get_attr_from_name(n))
            except Exception:
                out[n] = "not readable"
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"saved again it reads ...{b[max(0, i - 60):i + 60]}... instead of ...{a[max(0, i - 60):i + 60]}..."
    return f"lengths {len(a)} and {len(b)}"


def warm():
    mg.warm()
