"""C01: field descriptions never depend on the cache."""
import os
import re
import types
import typing
import enum

from sim import sched
from sim.props.common import LIBDIR, all_classes, class_by_name, class_name, digest, fault_plan
from sim.world import Violation, run_processes

ID = "C01"
ADDR = re.compile(r" at 0x[0-9a-fA-F]+")
BASE = {}     # class name -> description in a pristine process (set by warm)
CLASSES = []


# ---- the oracle: what a definition implies, by our own reading ------------
def _nested(ann):
    """The metadata class a field holds, if any (lists and mappings are leaves)."""
    from pydantic import BaseModel

    def model(a):
        return isinstance(a, type) and issubclass(a, BaseModel)
    org = typing.get_origin(ann)
    if org is typing.Annotated:
        return _nested(typing.get_args(ann)[0])
    if org is typing.Union or org is types.UnionType:
        args = typing.get_args(ann)
        for a in args:
            if model(a):
                return a
        for a in args:
            if a is not type(None):
                return _nested(a)
        return None
    return ann if org is None and model(ann) else None


def expected(cls, prefix="", seen=()):
    out = {}
    for name, info in cls.model_fields.items():
        if info.deprecated is not None:
            continue
        sub = _nested(info.annotation)
        if sub is not None and sub.__name__ != "MTime":
            if sub in seen:
                continue
            out.update(expected(sub, f"{prefix}{name}.", seen + (cls,)))
            continue
        ex = info.json_schema_extra if isinstance(info.json_schema_extra, dict) else {}
        en = None
        if isinstance(info.annotation, type) and issubclass(info.annotation, enum.Enum):
            en = [m.value for m in info.annotation]
        out[prefix + name] = {"description": info.description, "units": ex.get("units"),
                              "required": ex.get("required"), "type": ADDR.sub("", repr(info.annotation)),
                              "enum": en, "default": None if info.default is None else ADDR.sub("", repr(info.default))}
    return out


KEYS = ("description", "units", "required", "type", "enum", "default")


def ask(cls):
    """What a user gets for the class, through an instance."""
    try:
        o = cls()
    except Exception as e:
        if type(e).__name__ != "ValidationError":
            raise
        o = cls.model_construct()
        object.__setattr__(o, "__pydantic_private__", {"_fields": {}, "_skip_equals": [], "_class_name": cls.__name__})
    return o.get_all_fields()


def plain(fields):
    out = {}
    for k in sorted(fields):
        v = fields[k]
        out[k] = {kk: (ADDR.sub("", vv) if isinstance(vv, str) else vv) for kk, vv in sorted(v.items())
                  if kk != "default_factory"}
    return out


def compare(cls, got, want, base=None, when=""):
    if not isinstance(got, dict):
        raise Violation("wrong description", f"{class_name(cls)} {when}: not a dictionary: {str(got)[:100]}")
    if set(got) != set(want):
        miss, more = sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]
        raise Violation("wrong description", f"{class_name(cls)} {when}: missing fields {miss}, extra fields {more}")
    for k in want:
        for kk in KEYS:
            g = got[k].get(kk)
            g = ADDR.sub("", g) if isinstance(g, str) else g
            if g != want[k][kk]:
                raise Violation("wrong description", f"{class_name(cls)} {when}: {k}.{kk} is {g!r}, definition says {want[k][kk]!r}")
    if base is not None:
        p = plain(got)
        if p != base:
            for k in base:
                if p.get(k) != base[k]:
                    raise Violation("wrong description", f"{class_name(cls)} {when}: {k} is {p.get(k)!r}, without a cache it is {base[k]!r}")


# ---- invented classes: the same name, definitions that change -------------
TYPES = {"s": str, "f": float, "i": int, "os": "str|None", "l": "list[str]", "of": "float|None"}


class _Colour(str, enum.Enum):
    red = "red"


def make(spec, name="Probe"):
    from pydantic import Field, create_model
    from mt_metadata.base import MetadataBase
    fields = {}
    for f in spec:
        extra = {"units": f["u"], "required": f["r"], "examples": [f["x"]]}
        if f.get("sub") is not None:
            t = make(f["sub"], name + "_" + f["n"])
            fields[f["n"]] = (t, Field(default_factory=t, description=f["d"], json_schema_extra=extra))
            continue
        if f["t"] == "e":
            t = enum.Enum("Kind_" + f["n"], {v: v for v in f["e"]}, type=str, module="simulated")
            fields[f["n"]] = (t, Field(default=f["e"][0], description=f["d"], json_schema_extra=extra))
            continue
        t = TYPES[f["t"]]
        t = eval(t, {}) if isinstance(t, str) else t
        kw = {}
        if f.get("dep"):
            kw["deprecated"] = "old"
        fields[f["n"]] = (t, Field(default=f["v"], description=f["d"], json_schema_extra=extra, **kw))
    return create_model(name, __base__=MetadataBase, __module__="simulated", **fields)


def gen_spec(rng, depth=0):
    out = []
    for i in range(rng.randint(1, 4)):
        n = f"{'abcdef'[i]}{depth}"
        t = rng.choice(["s", "f", "i", "os", "l", "of", "e"])
        v = {"s": "x", "f": 1.5, "i": 3, "os": None, "l": ["q"], "of": None, "e": "p"}[t]
        f = {"n": n, "t": t, "v": v, "d": rng.choice(["length", "width"]), "u": rng.choice([None, "meters", "degrees"]),
             "r": rng.random() < 0.5, "x": "1"}
        if t == "e":
            f["e"] = ["p", "q"]
        if depth < 3 and rng.random() < 0.5:
            f["sub"] = gen_spec(rng, depth + 1)
        out.append(f)
    return out


def mutate(rng, spec):
    """One change somewhere in the tree (a new release of the class)."""
    import copy
    spec = copy.deepcopy(spec)
    node = spec
    while True:
        subs = [f for f in node if f.get("sub") is not None]
        if subs and rng.random() < 0.7:
            node = rng.choice(subs)["sub"]
        else:
            break
    f = rng.choice(node)
    k = rng.choice(["add", "rename", "d", "u", "r", "x", "v", "drop", "t", "e", "dep"])
    if k == "add":
        node.append({"n": "extra", "t": "s", "v": "y", "d": "added", "u": None, "r": False, "x": "2"})
    elif k == "rename":
        f["n"] = f["n"] + "_new"
    elif k == "d":
        f["d"] += " of the cable"
    elif k == "u":
        f["u"] = "seconds"
    elif k == "r":
        f["r"] = not f["r"]
    elif k == "x":
        f["x"] += "0"
    elif k == "drop" and len(node) > 1:
        node.remove(f)
    elif k == "dep" and f.get("sub") is None and f["t"] != "e" and len(node) > 1:
        f["dep"] = True
    elif k == "e" and f["t"] == "e" and f.get("sub") is None:
        f["e"] = f["e"] + ["r"]
    elif k == "v" and f.get("sub") is None and f["t"] in ("s", "f", "i"):
        f["v"] = {"s": "z", "f": 2.5, "i": 9}[f["t"]]
    elif f.get("sub") is None:
        f["t"], f["v"] = ("s", "w") if f["t"] != "s" else ("f", 0.5)
    else:
        f["d"] += " (new)"
    return spec


GARBAGE = ["", "{}", "null", "[]", "0", "{", "{\"a\": 1}", "\"x\"", "[{}]", "{\"id\": {}}", "\x00\x00\x00",
           "{\"comments\": {\"__field__\": true}}", "not json at all", "true"]


def generate(rng, tier, idx):
    names = [class_name(c) for c in CLASSES]
    mode = ["seq", "threads", "procs", "versions"][idx % 4]
    pick = lambda k: [rng.choice(names) for _ in range(k)]   # noqa: E731
    plan = {"mode": mode, "where": rng.choice(["env", "env", "home", "xdg"]), "clock": 10**18 + rng.randrange(10**18)}
    if rng.random() < 0.15:
        plan["obstacle"] = rng.choice(["file", "dirfile", "nohome"])
    if mode in ("seq", "versions"):
        if mode == "versions":
            spec = gen_spec(rng)
            vers = [spec]
            for _ in range(rng.randint(1, 3)):
                vers.append(mutate(rng, vers[-1]))
            plan["vers"] = vers
        ops = []
        for _ in range(rng.randint(2, 6)):
            op = {"do": "ask", "classes": pick(rng.randint(1, 3)) if mode == "seq" else [],
                  "ver": rng.randrange(len(plan["vers"])) if mode == "versions" else None,
                  "faults": fault_plan(rng) if rng.random() < 0.6 else [], "tear": rng.randrange(1 << 30),
                  "again": rng.random() < 0.4}
            if rng.random() < 0.2:
                op["interrupt"] = rng.randrange(60)
            ops.append(op)
            if rng.random() < 0.6:
                ops.append({"do": "damage", "how": rng.choice(["cut", "zero", "garbage", "garbage", "dir", "unreadable", "drop"]),
                            "seed": rng.randrange(1 << 30), "all": rng.random() < 0.5})
        if mode == "seq":      # ask again for what was asked before
            known = [c for o in ops if o["do"] == "ask" for c in o["classes"]]
            ops.append({"do": "ask", "classes": sorted(set(known))[:4], "ver": None, "faults": [], "tear": None, "again": True})
        else:
            for v in range(len(plan["vers"])):
                ops.append({"do": "ask", "classes": [], "ver": v, "faults": [], "tear": None, "again": False})
        plan["ops"] = ops
    elif mode == "threads":
        k = rng.randint(2, 4)
        shared = pick(rng.randint(1, 2))
        plan["tasks"] = [[rng.choice(shared + pick(1)) for _ in range(rng.randint(1, 3))] for _ in range(k)]
        dense = rng.random() < 0.3
        pts, n = [], 0
        for _ in range(rng.randint(1, 400) if dense else rng.randint(1, 25)):
            n += rng.randint(1, 60 if dense else 2500)
            pts.append([n, rng.randrange(k)])
        plan["preempt"] = pts
        plan["first"] = rng.randrange(k)
        plan["faults"] = fault_plan(rng, allow_crash=False) if rng.random() < 0.4 else []
        plan["prior"] = rng.random() < 0.4
        if rng.random() < 0.3:
            plan["interrupt"] = rng.randrange(80)
    else:
        k = rng.randint(2, 3)
        shared = pick(rng.randint(1, 2))
        plan["procs"] = [[rng.choice(shared + pick(1)) for _ in range(rng.randint(1, 2))] for _ in range(k)]
        plan["choices"] = [rng.randrange(k) for _ in range(rng.randint(5, 120))]
        plan["pfaults"] = [fault_plan(rng) if rng.random() < 0.4 else [] for _ in range(k)]
        plan["tear"] = rng.randrange(1 << 30)
        plan["prior"] = rng.random() < 0.3
        plan["_shrink"] = ["choices", "procs"]
    return plan


def fresh():
    """This process has never looked anything up."""
    from mt_metadata.base import pydantic_helpers
    f = getattr(pydantic_helpers, "clear_field_caches", None)
    if f:
        f()


class Interrupt:
    """Ctrl-C while a field is being examined (the n-th one)."""

    def __init__(self, n):
        self.n = n
        self.fired = False

    def __enter__(self):
        import pydantic
        self.orig = pydantic.TypeAdapter.json_schema

        def hit(ta, *a, **k):
            if self.n is not None:
                self.n -= 1
                if self.n < 0:
                    self.n = None
                    self.fired = True
                    raise KeyboardInterrupt()
            return self.orig(ta, *a, **k)
        pydantic.TypeAdapter.json_schema = hit
        return self

    def __exit__(self, *a):
        import pydantic
        pydantic.TypeAdapter.json_schema = self.orig


def check_class(cls, base, when, world=None):
    try:
        got = ask(cls)
    except Exception as e:
        raise Violation("lookup failed", f"{class_name(cls)} {when}: {type(e).__name__}: {str(e)[:200]}")
    compare(cls, got, expected(cls), base, when)
    return len(got)


def setup_where(plan, world):
    os.environ.pop("MT_METADATA_CACHE_DIR", None)
    os.environ.pop("XDG_CACHE_HOME", None)
    os.environ.pop("MT_METADATA_DISABLE_DISK_CACHE", None)
    os.environ["HOME"] = world.path("home")
    w = plan["where"]
    if plan.get("obstacle") != "nohome":
        os.makedirs(world.path("home"), exist_ok=True)
    if w == "env":
        os.environ["MT_METADATA_CACHE_DIR"] = world.path("cache")
        top = world.path("cache")
    elif w == "xdg":
        os.environ["XDG_CACHE_HOME"] = world.path("xdg")
        top = world.path("xdg")
    else:
        top = world.path("home", ".cache")
    if plan.get("obstacle") == "file":
        os.makedirs(os.path.dirname(top), exist_ok=True)
        with open(top, "w") as f:
            f.write("in the way")
    elif plan.get("obstacle") == "dirfile" and w != "env":
        os.makedirs(top, exist_ok=True)
        with open(os.path.join(top, "mt_metadata"), "w") as f:
            f.write("in the way")


def cache_files(world):
    out = []
    for d, _, fs in os.walk(world.root):
        out += [os.path.join(d, f) for f in fs if f.endswith(".json")]
    return sorted(out)


def damage(world, op):
    import random
    rng = random.Random(op["seed"])
    files = cache_files(world)
    if not files:
        return 0
    chosen = files if op["all"] else [rng.choice(files)]
    n = 0
    for p in chosen:
        if os.path.isdir(p):
            continue
        with open(p, "rb") as f:
            data = f.read()
        how = op["how"]
        if how == "cut":
            new = data[:rng.randrange(len(data) + 1)] if data else b""
        elif how == "zero":
            c = rng.randrange(len(data)) if data else 0
            new = data[:c] + bytes(len(data) - c)
        elif how == "garbage":
            new = rng.choice(GARBAGE).encode()
        elif how == "unreadable":
            new = b"\xff\xfe\x00" + data[:100]
        elif how == "drop":
            os.unlink(p)
            n += 1
            continue
        else:
            os.unlink(p)
            os.mkdir(p)
            n += 1
            continue
        with open(p, "wb") as f:
            f.write(new)
        n += 1
    k = f"damage:{op['how']}"
    world.stats["fired"][k] = world.stats["fired"].get(k, 0) + n
    return n


def ask_process(op, plan, world, when):
    """Body of one simulated process: ask for some classes."""
    if op.get("ver") is not None:
        targets = [(make(plan["vers"][op["ver"]]), None)]
    else:
        targets = [(class_by_name(c), BASE.get(c)) for c in op["classes"]]
    n = 0
    fired = False
    if op.get("interrupt") is not None:
        with Interrupt(op["interrupt"]) as it:
            for cls, base in targets:
                try:
                    ask(cls)
                except KeyboardInterrupt:
                    pass
                except Exception as e:
                    raise Violation("lookup failed", f"{class_name(cls)} {when}, interrupted: {type(e).__name__}: {e}")
        fired = it.fired
    for rep in range(2 if op.get("again") else 1):
        for cls, base in targets:
            n += check_class(cls, base, when)
    return n, fired


def execute(plan, world):
    setup_where(plan, world)
    fresh()
    count = {"lookups": 0, "fields": 0, "interrupts": 0, "cache_files": 0}
    states = []
    mode = plan["mode"]
    if mode in ("seq", "versions"):
        for i, op in enumerate(plan["ops"]):
            if op["do"] == "damage":
                damage(world, op)
            else:
                res = world.process(ask_process, op, plan, world, f"in process {i}", faults=op["faults"], tear=op["tear"])
                if res[0] == "raise":
                    raise Violation("lookup failed", f"process {i}: {res[1]}: {res[2]}")
                if res[0] == "ok":
                    count["lookups"] += max(1, len(op["classes"]))
                    count["fields"] += res[1][0]
                    count["interrupts"] += res[1][1]
                    if res[1][1]:
                        world.stats["fired"]["interrupt"] = world.stats["fired"].get("interrupt", 0) + 1
            states.append(digest(sorted((k, len(v)) for k, v in world.snapshot().items())))
        count["cache_files"] = len(cache_files(world))
        return {"count": count, "digest": digest(states), "states": states, "state": digest([plan["ops"], states]),
                "sample": {"mode": mode, "ops": [{k: o[k] for k in o if k != "seed"} for o in plan["ops"]][:4]}}
    if plan.get("prior"):
        names = sorted({c for t in plan.get("tasks", plan.get("procs")) for c in t})
        world.process(lambda: [ask(class_by_name(c)) for c in names])
        damage(world, {"how": "cut", "seed": 1, "all": False})
    if mode == "procs":
        fns = [(lambda cs=cs, i=i: sum(check_class(class_by_name(c), BASE.get(c), f"in process {i}") for c in cs))
               for i, cs in enumerate(plan["procs"])]
        res = run_processes(world, fns, plan["choices"], faults=plan["pfaults"][:len(fns)], tear=plan["tear"])
        for i, r in enumerate(res):
            if r[0] == "raise":
                raise Violation("lookup failed", f"process {i}: {r[1]}: {r[2]}")
            if r[0] == "ok":
                count["fields"] += r[1]
                count["lookups"] += len(plan["procs"][i])
        # a later process sees what they left behind
        names = sorted({c for t in plan["procs"] for c in t})
        r = world.process(lambda: sum(check_class(class_by_name(c), BASE.get(c), "afterwards") for c in names))
        if r[0] != "ok":
            raise Violation("lookup failed", f"afterwards: {r}")
        return {"count": count, "digest": digest([world.order, count]), "states": [digest(world.order)],
                "state": digest([plan["procs"], world.order]),
                "sample": {"mode": mode, "procs": plan["procs"], "order": world.order[:60]}}
    # threads
    return threads(plan, world, count)


def threads(plan, world, count):
    def body():
        S = sched.Scheduler(plan["preempt"], LIBDIR)
        world.sched = S

        def task(i, cs):
            def run():
                out = []
                for c in cs:
                    try:
                        out.append((c, ask(class_by_name(c))))
                    except KeyboardInterrupt:
                        out.append((c, None))
                return out
            return run
        with Interrupt(plan.get("interrupt")) as it:
            res = S.run([task(i, cs) for i, cs in enumerate(plan["tasks"])], plan["first"])
        world.sched = None
        fields = 0
        for i, r in enumerate(res):
            if r[0] != "ok":
                raise Violation("lookup failed", f"task {i}: {r[1:]} ({S.failed})")
            for c, got in r[1]:
                if got is None:
                    continue
                compare(class_by_name(c), got, expected(class_by_name(c)), BASE.get(c), f"in task {i}")
                fields += len(got)
        # and once more, when all is quiet
        for cs in plan["tasks"]:
            for c in cs:
                check_class(class_by_name(c), BASE.get(c), "after the tasks")
        return fields, S.n, S.switches, S.trace[:200], it.fired
    r = world.process(body, faults=plan["faults"])
    if r[0] != "ok":
        raise Violation("lookup failed", f"{r}")
    fields, n, sw, trace, fired = r[1]
    count["fields"] += fields
    count["lookups"] += sum(len(t) for t in plan["tasks"])
    count["scheduling_points"] = n
    count["switches"] = sw
    if fired:
        world.stats["fired"]["interrupt"] = 1
    return {"count": count, "digest": digest([n, trace]), "states": [digest(trace)], "state": digest([plan["tasks"], trace]),
            "nontrivial": sw > 0, "sample": {"mode": "threads", "tasks": plan["tasks"], "switches": trace[:20], "points": n}}


def warm():
    """The description of every class in a pristine process, taken in a child."""
    import json
    import pickle
    from sim.world import _recv, _send
    global CLASSES
    CLASSES = all_classes()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = {}
            for c in CLASSES:
                try:
                    out[class_name(c)] = plain(ask(c))
                except Exception:
                    out[class_name(c)] = None
            _send(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    msg, _ = _recv(r, pid, 120)
    BASE.update(pickle.loads(msg))
