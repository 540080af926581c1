"""C17: what is set is what is read."""
import json

from sim import sched
from sim.world import Violation
from . import metagen as mg
from .common import LIBDIR, class_by_name, class_name, digest

ID = "C17"
TIMEOUT = 120
ROUTES = ["set", "set", "update_attribute", "from_dict", "from_nested", "from_series", "from_json", "load", "update", "replace",
          "comment", "reject", "reject", "reject_bulk", "new", "attr_of_part"]
WEIGHTY = ("Station", "Run", "Survey", "Electric", "Magnetic", "Auxiliary", "Channel", "Location", "FC", "Processing", "Decimation")


def gen_fields(rng, cls, k):
    m = mg.menu(cls)
    out = []
    for _ in range(k):
        n, kind, p = rng.choice(m)
        v, w = rng.choice(p)
        out.append([n, kind, v, w])
    seen = {}
    for f in out:
        seen[f[0]] = f
    return list(seen.values())


def bad_value(rng, kind, name, owner_info):
    """A value the field's own definition excludes."""
    last = name.split(".")[-1]
    if last in ("latitude", "lat", "reflat"):
        return rng.choice([90.5, -91.0, 1000.0])
    if last in ("longitude", "lon", "reflon"):
        return rng.choice([180.5, -181.0, 1000.0])
    if kind == "float":
        return rng.choice(["not a number", [1.0, 2.0], {"a": 1}])
    if kind == "int":
        return rng.choice(["seven", 1.5, [3], {"a": 1}])
    if kind == "bool":
        return rng.choice(["perhaps", 7, [True]])
    if kind == "enum":
        return rng.choice(["no such option", 12345, ["x"]])
    if kind == "liststr":
        return rng.choice([12, {"a": 1}])
    return None


def generate(rng, tier, idx):
    # a comment reads a dictionary as a whole; it is exercised as a part of others
    names = [n for n in mg.usable() if not n.endswith(":Comment")]
    heavy = [n for n in names if n.split(":")[1] in WEIGHTY]
    objs = [rng.choice(heavy if rng.random() < 0.35 else names) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        objs.append(objs[0])       # two of one kind
    ops = []
    for _ in range(rng.randint(3, 14 if tier == "quick" else 40)):
        i = rng.randrange(len(objs))
        cls = class_by_name(objs[i])
        do = rng.choice(ROUTES)
        op = {"do": do, "obj": i, "fields": gen_fields(rng, cls, 1 if do in ("set", "update_attribute", "attr_of_part") else rng.randint(1, 6))}
        if do in ("from_dict", "from_nested", "from_json", "load", "reject_bulk"):
            # filters given in a dictionary are added to those a channel has
            op["fields"] = [f for f in op["fields"] if f[0] != "filters"]
            if not op["fields"]:
                continue
        if do == "comment":
            c = mg.comments(cls)
            if not c:
                continue
            op["fields"] = [[rng.choice(c), "comment", rng.choice(mg.WORDS), None]]
        elif do == "replace":
            s = mg.submodels(cls)
            # a network code names a station that has no name of its own
            s = [(n, x) for n, x in s if class_name(x) in mg.BASE and n.split(".")[-1] != "fdsn"]
            if not s:
                continue
            n, x = rng.choice(s)
            op["part"], op["cls"] = n, class_name(x)
            op["fields"] = gen_fields(rng, x, rng.randint(0, 3)) if mg.menu(x) else []
        elif do == "reject" or do == "reject_bulk":
            n, kind, p = rng.choice(mg.menu(cls))
            b = bad_value(rng, kind, n, None)
            if b is None:
                continue
            op["bad"] = [n, kind, b]
            op["how"] = rng.choice(["set", "update_attribute"]) if do == "reject" else rng.choice(["from_dict", "from_series"])
            op["fields"] = [] if do == "reject" else op["fields"]
        if rng.random() < 0.12 and do != "new":
            op["interrupt"] = rng.randint(1, 60)
        ops.append(op)
    return {"objs": objs, "ops": ops}


def assign(obj, do, fields, cls, op):
    import pandas as pd
    if do == "set":
        n, _, v, _ = fields[0]
        o = obj
        for p in n.split(".")[:-1]:
            o = getattr(o, p)
        setattr(o, n.split(".")[-1], v)
    elif do == "attr_of_part":
        n, _, v, _ = fields[0]
        head, _, tail = n.partition(".")
        if tail:
            getattr(obj, head).update_attribute(tail, v)
        else:
            obj.update_attribute(n, v)
    elif do == "update_attribute":
        obj.update_attribute(fields[0][0], fields[0][2])
    elif do == "from_dict":
        obj.from_dict(dict(wrap(cls, {f[0]: f[2] for f in fields})))
    elif do == "from_nested":
        obj.from_dict(wrap(cls, nest(fields)))
    elif do == "from_json":
        obj.from_json(json.dumps(wrap(cls, nest(fields)), default=lambda o: o.to_dict() if hasattr(o, "to_dict") else str(o)))
    elif do == "load":
        obj.load(wrap(cls, {f[0]: f[2] for f in fields}))
    elif do == "from_series":
        obj.from_series(pd.Series({f[0]: f[2] for f in fields}, dtype=object))


def wrap(cls, d):
    from mt_metadata.utils.validators import validate_name
    return {validate_name(cls.__name__): d}


def nest(fields):
    out = {}
    for n, _, v, _ in fields:
        o = out
        ps = n.split(".")
        for p in ps[:-1]:
            o = o.setdefault(p, {})
        o[ps[-1]] = v
    return out


NULLS = [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]


def nullish(v):
    from mt_metadata import NULL_VALUES
    return any(v == x and type(v) == type(x) for x in NULLS + list(NULL_VALUES)) or (isinstance(v, (bool, int, float)) and v == 0)


def routes_agree(obj, cls, want, when):
    """Every way of reading gives the same."""
    flat = obj.to_dict(single=True, required=False)
    ser = obj.to_series(required=False)
    com = {c for c in mg.comments(cls)}
    for n in want:
        v = mg.plain(obj.get_attr_from_name(n))
        if not mg.same(want[n], v):
            raise Violation("wrong value", f"{class_name(cls)} {when}: get_attr_from_name({n!r}) gives {v!r}, expected {want[n]!r}")
        if any(n.startswith(c + ".") for c in com) or "comments." in n:
            continue
        if isinstance(want[n], mg.Models) or (isinstance(want[n], list) and want[n] and isinstance(want[n][0], list)):
            continue        # written out as dictionaries of their own
        if n not in flat:
            raise Violation("wrong value", f"{class_name(cls)} {when}: {n} is not in to_dict()")
        v = mg.plain(flat[n])
        if not mg.same(want[n], v) and not (want[n] is None and v in ("", 0.0)):
            raise Violation("wrong value", f"{class_name(cls)} {when}: to_dict()[{n!r}] is {v!r}, expected {want[n]!r}")
        v = mg.plain(ser[n])
        if not mg.same(want[n], v) and not (want[n] is None and (v in ("", 0.0) or v != v)) and not (isinstance(want[n], (int, float)) and v == want[n]):
            raise Violation("wrong value", f"{class_name(cls)} {when}: to_series()[{n!r}] is {v!r}, expected {want[n]!r}")


def ready(ops):
    """The plan's operations with the values that are assigned."""
    out = []
    for op in ops:
        op = dict(op)
        op["fields"] = [[f[0], f[1], mg.decode(f[1], f[2]), f[3]] for f in op.get("fields", [])]
        out.append(op)
    return out


def execute(plan, world):
    plan = dict(plan, ops=ready(plan["ops"]))
    classes = [class_by_name(n) for n in plan["objs"]]
    objs = [c() for c in classes]
    names = [[n for n, _, _ in mg.menu(c)] for c in classes]
    want = [dict(mg.BASE[n]) for n in plan["objs"]]
    count = {"assignments": 0, "rejections": 0, "reads": 0, "interrupts": 0, "not_rejected": 0}
    trail = []

    def check(when):
        for i, o in enumerate(objs):
            d = mg.differs(want[i], mg.state(o, names[i]))
            count["reads"] += len(names[i])
            if d:
                raise Violation("wrong value", f"{class_name(classes[i])} (object {i}) {when}: {d}")
    check("when new")
    for j, op in enumerate(plan["ops"]):
        i = op["obj"]
        cls, obj, do = classes[i], objs[i], op["do"]
        when = f"after op {j} ({do} on object {i})"
        fields = op["fields"]
        new = dict(want[i])
        it = sched.InterruptAt(LIBDIR, op["interrupt"]) if op.get("interrupt") else None

        def run(fn):
            """The assignment, perhaps interrupted; True when it went through."""
            if it is None:
                fn()
                return True
            try:
                with it:
                    fn()
            except KeyboardInterrupt:
                count["interrupts"] += 1
                world.stats["fired"]["interrupt"] = world.stats["fired"].get("interrupt", 0) + 1
                return False
            return True
        if do in ("reject", "reject_bulk"):
            n, kind, b = op["bad"]
            how = op["how"]
            try:
                if do == "reject":
                    assign(cls(), how, [[n, kind, b, None]], cls, op)
                else:
                    cls().update_attribute(n, b)
                accepted = True
            except Exception:
                accepted = False
            if accepted:
                # accepted on a new object: then it is not for us to say what it means
                count["not_rejected"] += 1
                if must_reject(cls, n, kind, b):
                    raise Violation("not rejected", f"{class_name(cls)}: {n} = {b!r} was accepted")
                continue
            try:
                if do == "reject":
                    done = run(lambda: assign(obj, how, [[n, kind, b, None]], cls, op))
                else:
                    done = run(lambda: assign(obj, how, fields + [[n, kind, b, None]], cls, op))
                if done:
                    raise Violation("not rejected", f"{class_name(cls)} {when}: {n} = {b!r} was accepted, a new object refuses it")
            except Violation:
                raise
            except Exception:
                count["rejections"] += 1
            if do == "reject_bulk":
                # each of the good fields either arrived or did not; the bad one did not
                now = mg.state(obj, names[i])
                for f in fields:
                    if f[0] != n and mg.same(now[f[0]], f[3]):
                        new[f[0]] = f[3]
            want[i] = new
            check(when)
            trail.append([do, n])
            continue
        if do == "new":
            try:
                obj = cls(**{f[0]: f[2] for f in fields})
            except Exception as e:
                raise Violation("assignment failed", f"{class_name(cls)}(**{[(f[0], f[2]) for f in fields]}): {type(e).__name__}: {str(e)[:200]}")
            objs[i] = obj
            new = dict(mg.BASE[plan["objs"][i]])
            for f in fields:
                new[f[0]] = f[3]
            # a part of which some fields are given may start from its own defaults
            now = mg.state(obj, names[i])
            given = {f[0] for f in fields}
            for part, x in mg.submodels(cls):
                if class_name(x) in mg.BASE and any(g.startswith(part + ".") for g in given):
                    for k, v in mg.BASE[class_name(x)].items():
                        n = f"{part}.{k}"
                        if n in new and n not in given and mg.same(now[n], v):
                            new[n] = now[n]
        elif do == "comment":
            n, _, v, _ = fields[0]
            try:
                ok = run(lambda: obj.update_attribute(n, v))
            except Exception as e:
                raise Violation("assignment failed", f"{class_name(cls)} {when}: {n} = {v!r}: {type(e).__name__}: {str(e)[:200]}")
            upd = {n + ".value": v, n + ".author": mg.BASE[plan["objs"][i]].get(n + ".author"),
                   n + ".time_stamp": mg.BASE[plan["objs"][i]].get(n + ".time_stamp")}
            now = mg.state(obj, names[i])
            if ok or all(mg.same(now[k], x) for k, x in upd.items() if k in now):
                new.update({k: x for k, x in upd.items() if k in new})
        elif do == "replace":
            x = class_by_name(op["cls"])
            part = x()
            for f in fields:
                part.update_attribute(f[0], f[2])
            psub = dict(mg.BASE[op["cls"]])
            for f in fields:
                psub[f[0]] = f[3]
            try:
                ok = run(lambda: obj.update_attribute(op["part"], part))
            except Exception as e:
                raise Violation("assignment failed", f"{class_name(cls)} {when}: {op['part']}: {type(e).__name__}: {str(e)[:200]}")
            now = mg.state(obj, names[i])
            upd = {op["part"] + "." + k: v for k, v in psub.items() if op["part"] + "." + k in new}
            if ok or all(mg.same(now[k], v) for k, v in upd.items()):
                new.update(upd)
        elif do == "update":
            src = cls()
            ow = dict(mg.BASE[plan["objs"][i]])
            for f in fields:
                src.update_attribute(f[0], f[2])
                ow[f[0]] = f[3]
            try:
                ok = run(lambda: obj.update(src))
            except Exception as e:
                raise Violation("assignment failed", f"{class_name(cls)} {when}: {type(e).__name__}: {str(e)[:200]}")
            d = mg.differs(ow, mg.state(src, names[i]))
            if d:
                raise Violation("wrong value", f"{class_name(cls)} {when}: the object it was updated from: {d}")
            now = mg.state(obj, names[i])
            for f in fields:
                if nullish(f[3]) or "comments." in f[0]:
                    continue
                if ok or mg.same(now[f[0]], f[3]):
                    new[f[0]] = f[3]
            # what the other object has by default may or may not carry over
            for n in new:
                if n not in [f[0] for f in fields] or "comments." in n or nullish(ow[n]):
                    if mg.same(now[n], ow[n]) or mg.same(now[n], carried(cls, n, ow[n])) or ("comments." in n and mg.same(now[n], mg.BASE[plan["objs"][i]][n])):
                        new[n] = now[n]
        else:
            try:
                ok = run(lambda: assign(obj, do, fields, cls, op))
            except Exception as e:
                raise Violation("assignment failed", f"{class_name(cls)} {when}: {[(f[0], f[2]) for f in fields]}: {type(e).__name__}: {str(e)[:200]}")
            if ok:
                for f in fields:
                    new[f[0]] = f[3]
            else:
                now = mg.state(obj, names[i])
                for f in fields:
                    if mg.same(now[f[0]], f[3]):
                        new[f[0]] = f[3]
        count["assignments"] += max(1, len(fields))
        want[i] = new
        check(when)
        trail.append([do, plan["objs"][i], [f[0] for f in fields]])
    for i, o in enumerate(objs):
        try:
            routes_agree(o, classes[i], want[i], "at the end")
        except Violation:
            raise
        except Exception as e:
            raise Violation("reading failed", f"{class_name(classes[i])}: {type(e).__name__}: {str(e)[:200]}")
    check("after reading by every route")
    for i, c in enumerate(classes):
        d = mg.differs(mg.BASE[plan["objs"][i]], mg.state(c(), names[i]))
        if d:
            raise Violation("defaults changed", f"a new {class_name(c)} at the end: {d}")
    d = digest([trail, want])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["assignments"] > 0,
            "sample": {"objs": plan["objs"], "ops": plan["ops"][:3]}}


def carried(cls, n, v):
    """What a default becomes when it is assigned (it may be normalised)."""
    try:
        o = cls()
        o.update_attribute(n, v)
        return mg.read(o, n)
    except Exception:
        return v


def must_reject(cls, n, kind, b):
    last = n.split(".")[-1]
    if kind == "enum":
        return b == "no such option" and last != "coordinate_system"   # falls back to geographic
    if kind == "float":
        return b == "not a number" or (last in ("latitude", "longitude") and isinstance(b, float))
    if kind == "int":
        return b == "seven"
    if kind == "bool":
        return b == "perhaps"
    return False


def warm():
    mg.warm()
