"""C13: the order of arrival does not change the outcome."""
import datetime
import os
import random

from sim.world import Violation, norm
from . import expgen as xg
from . import metagen as mg
from .c12 import ADD, COLL, GET, KID, raised_in_library
from .common import digest, fault_plan

ID = "C13"
TIMEOUT = 240
LEVELS = ["experiment", "survey", "station", "run"]
KEY = {"experiment": "surveys", "survey": "stations", "station": "runs", "run": "channels"}
ROUTES = ["add"] * 6 + ["add late", "add late", "merge", "direct", "bulk", "dict", "deep", "deep", "deep"]
OFFSETS = ["+00:00", "+00:00", "+00:00", "", "+05:00", "-07:30"]


# ------------------------------------------------------------------ generate
def gen_top(rng, level, big):
    if level == "experiment":
        return {"kind": "experiment", "surveys": xg.gen_experiment(rng, big)["surveys"]}
    if level == "survey":
        return xg.gen_survey(rng, big)
    fl = [f"f{i}" for i in range(rng.choice([0, 2]))]
    return xg.gen_station(rng, fl, big) if level == "station" else xg.gen_run(rng, fl, big)


def walk(d):
    yield d
    for k in KEY.values():
        for x in d.get(k, []):
            yield from walk(x)


def vary_times(rng, d):
    """Time spans of channels and of runs: none, one end only, in other zones, and runs that say more than their channels."""
    for x in walk(d):
        if x["kind"] in xg.COMPS or (x["kind"] == "run" and (not x["channels"] or rng.random() < 0.3)):
            if rng.random() < 0.15:
                x["times"] = None
                continue
            t = rng.randrange(1_300_000_000, 1_700_000_000)
            dt = rng.choice([0, 1, 60, 3600, 86400, 10**7])
            x["times"] = [stamp(t, rng.choice(OFFSETS)), stamp(t + dt, rng.choice(OFFSETS))]
            if rng.random() < 0.1:
                x["times"][rng.randrange(2)] = None


def stamp(t, offset):
    d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
    if offset not in ("", "+00:00"):
        s = -1 if offset[0] == "-" else 1
        h, m = offset[1:].split(":")
        d = d + s * datetime.timedelta(hours=int(h), minutes=int(m))
    return d.strftime("%Y-%m-%dT%H:%M:%S") + offset


def instant(text):
    d = datetime.datetime.fromisoformat(text)
    return d.replace(tzinfo=datetime.timezone.utc) if d.tzinfo is None else d.astimezone(datetime.timezone.utc)


def bare(d):
    return {k: ([] if k in KEY.values() else v) for k, v in d.items()}


def split(rng, d):
    """Pieces of a member: each with all of its own fields and some of its members, together everything."""
    coll = KEY.get(d["kind"])
    n = rng.choice([1, 1, 2, 3])
    out = [bare(d) for _ in range(n)]
    if d["kind"] == "survey":
        for p in out:
            p["filters"] = []
        for f in d["filters"]:
            for i in set(rng.choices(range(n), k=rng.choice([1, 1, 2]))):
                out[i]["filters"].append(f)
    if coll:
        for kid in d[coll]:
            for p in split(rng, kid):
                out[rng.randrange(n)][coll].append(p)
        for p in out:
            rng.shuffle(p[coll])
    return out


def deliveries(rng, top):
    """[{path, what}]: what arrives, and below which members."""
    out = []
    for kid in top[KEY[top["kind"]]]:
        for p in split(rng, kid):
            out.append({"path": [], "what": p})
    for d in list(out):
        node, path = d["what"], []
        while KEY.get(node["kind"]) and node[KEY[node["kind"]]] and rng.random() < 0.4:
            coll = KEY[node["kind"]]
            path = path + [node["id"]]
            i = rng.randrange(len(node[coll]))
            if rng.random() < 0.7:
                out.append({"path": path, "what": node[coll].pop(i)})
                break
            node = node[coll][i]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if out:
            out.append(rng.choice(out))
    return out


def generate(rng, tier, idx):
    big = tier != "quick" and rng.random() < 0.3
    kind = rng.choice(["members"] * 7 + ["files"] * 2 + ["mtml"])
    if kind == "mtml":
        from .c13x import generate as g
        return g(rng, tier)
    level = "experiment" if kind == "files" else rng.choice(["experiment", "survey", "survey", "station", "station", "run"])
    top = gen_top(rng, level, big)
    for _ in range(20):
        if top[KEY[level]] or rng.random() < 0.1:
            break
        top = gen_top(rng, level, big)
    vary_times(rng, top)
    dl = deliveries(rng, top)
    plan = {"kind": kind, "level": level, "top": top, "deliveries": dl, "builds": []}
    for _ in range(rng.choice([2, 2, 3])):
        order = list(range(len(dl)))
        rng.shuffle(order)
        b = []
        for i in order:
            b.append({"take": i, "by": rng.choice(ROUTES), "seed": rng.randrange(1 << 30), "up": rng.randrange(4)})
            if rng.random() < 0.1:
                b.append({"bad": rng.randrange(6), "seed": rng.randrange(1 << 30)})
        plan["builds"].append(b)
    if kind == "files":
        plan["forms"] = [rng.choice(["json", "xml", "json nested"]) for _ in dl]
        plan["faults"] = [fault_plan(rng, 12, allow_crash=False) if rng.random() < 0.5 else [] for _ in plan["builds"]]
        plan["save_faults"] = [fault_plan(rng) if rng.random() < 0.2 else [] for _ in dl]
        plan["listseed"] = [rng.randrange(1 << 20) for _ in plan["builds"]]
        plan["tear"] = rng.randrange(1 << 30)
    return plan


# -------------------------------------------------------------------- expect
def spans(d, path=()):
    """{path: (start, end)} and boxes, from the descriptions alone."""
    out = {}
    k = d["kind"]
    start, end = [], []
    coll = KEY.get(k)
    for x in d[coll] if coll else ():
        out.update(spans(x, path + (x["id"],)))
        s = out[path + (x["id"],)]
        start += [s["start"]] if s["start"] else []
        end += [s["end"]] if s["end"] else []
    if d.get("times"):
        start += [instant(d["times"][0])] if d["times"][0] else []
        end += [instant(d["times"][1])] if d["times"][1] else []
    out[path] = {"start": min(start, default=None), "end": max(end, default=None), "members": sorted(x["id"] for x in d[coll]) if coll else []}
    if k == "survey":
        f = [dict((n[0], n[3]) for n in x["fields"]) for x in d["stations"]]
        if f:
            la, lo = [x["location.latitude"] for x in f], [x["location.longitude"] for x in f]
            out[path]["box"] = [max(la), min(lo), min(la), max(lo)]
        out[path]["filters"] = sorted(x["id"] for x in d["filters"])
    return out


def facts(o, path=()):
    """The same, as the objects say."""
    out = {}
    k = xg.kind(o)
    coll = COLL.get(k)
    e = {"members": sorted(getattr(o, coll).keys()) if coll else []}
    if k == "survey":
        t = o.time_period
        e["start"], e["end"] = (when(t.start_date, 10), when(t.end_date, 10))
        if len(o.stations):
            e["box"] = [o.northwest_corner.latitude, o.northwest_corner.longitude, o.southeast_corner.latitude, o.southeast_corner.longitude]
        e["filters"] = sorted(o.filters.keys())
    elif k != "experiment":
        e["start"], e["end"] = when(o.time_period.start), when(o.time_period.end)
    out[path] = e
    for n, x in getattr(o, coll).items() if coll else ():
        out.update(facts(x, path + (n,)))
    return out


def when(t, n=None):
    t = str(t)
    return None if t.startswith("1980-01-01") else t[:n]


def dates(t):
    return [stamp(int(t.timestamp()), o)[:10] for o in sorted(set(OFFSETS))]


def agree(want, got, what, count):
    for p in sorted(set(want) | set(got)):
        at = f"{what}: {xg.label(p)}"
        if p not in got:
            raise Violation("member lost", f"{at} is not there, has {sorted(xg.label(x) for x in got)}")
        if p not in want:
            raise Violation("member appeared", at)
        w, g = want[p], got[p]
        count["compared"] += 1
        for n in ("members", "filters"):
            if w.get(n) != g.get(n):
                raise Violation("wrong members", f"{at} has {n} {g.get(n)}, should have {w.get(n)}")
        for n in ("start", "end"):
            if n in g:
                x = w[n].isoformat() if w[n] else None
                if x and len(g[n] or "") == 10:     # a date, in the zone the member gave
                    ok = g[n] in dates(w[n])
                else:
                    ok = w[n] == (instant(g[n]) if g[n] else None)
                if not ok:
                    raise Violation("wrong time span", f"{at}: {n} is {g[n]}, that of its members is {x}")
        if w.get("box") != g.get("box"):
            raise Violation("wrong bounding box", f"{at}: {g.get('box')}, that of its stations is {w.get('box')}")


def view(o):
    """Everything, without the order of members."""
    out = {}

    def put(path, x):
        k = xg.kind(x)
        if k != "experiment":
            out[path] = xg.own(x)
            out[path]["class"] = type(x).__name__
            if k == "station":
                out[path]["run_list"] = sorted(x.run_list)
        if k == "survey":
            for n, f in x.filters.items():
                put(path + ("filter", n), f)
        for n, y in getattr(x, COLL[k]).items() if k in COLL else ():
            put(path + (n,), y)
    put((), o)
    return out


def same(a, b, what):
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            raise Violation("member depends on the order", f"{what}: {xg.label(p)} is there in one order only")
        for n in a[p]:
            if not mg.same(a[p][n], b[p].get(n)):
                raise Violation("value depends on the order", f"{what}: {xg.label(p)} {n}: {a[p][n]!r} or {b[p].get(n)!r}")


# ------------------------------------------------------------------- execute
def start(top):
    if top["kind"] == "experiment":
        from mt_metadata.timeseries import Experiment
        return Experiment()
    d = bare(top)
    return make(d)


def make(d):
    """xg.make, with half-open times."""
    k = d["kind"]
    t = d.get("times")
    o = xg.make(dict(d, times=None, **{KEY[k]: []} if k in KEY else {}))
    if t:
        if t[0]:
            o.time_period.start = t[0]
        if t[1]:
            o.time_period.end = t[1]
    for x in d.get(KEY.get(k), []):
        getattr(o, ADD[k])(make(x))
    return o


def find(d, path):
    """The descriptions along a path."""
    out = [d]
    for n in path:
        d = [x for x in d[KEY[d["kind"]]] if x["id"] == n][0]
        out.append(d)
    return out


def refresh(chain):
    """What is documented to be called after changes further down."""
    for x in reversed(chain):
        k = xg.kind(x)
        if k == "run":
            x._update_channels_recorded()
            x.update_time_period()
        elif k in ("station", "survey"):
            x.update_all()


def deliver(top, o, item, step, late):
    """Bring one piece into the container."""
    rng = random.Random(step["seed"])
    path, what, by = item["path"], item["what"], step["by"]
    descs = find(top, path)
    # who is there already
    chain = [o]
    for n in path:
        c = getattr(chain[-1], COLL[xg.kind(chain[-1])])
        if n not in c.keys():
            break
        chain.append(c[n])
    room = len(chain) - 1
    depth = room if by == "deep" else min(room, step["up"] % (room + 1))
    # wrap what is missing between there and here
    for d in reversed(descs[depth + 1:]):
        w = bare(d)
        if d["kind"] == "survey":
            w["filters"] = []
        w[KEY[d["kind"]]] = [what]
        what = w
    host, chain = chain[depth], chain[:depth + 1]
    level = xg.kind(host)
    c = getattr(host, COLL[level])
    free = what["id"] not in c.keys()
    x = make(what)
    done = by
    if by == "add late" and level != "experiment":
        getattr(host, ADD[level])(x, update=False)
        late.append(True)
    elif by == "merge" and free:
        other = type(host)()
        getattr(other, COLL[level]).append(x)
        if level == "experiment":
            host.merge(other)
        elif level == "run":
            host.merge(other)
        else:
            host.merge(other, inplace=True)
    elif by == "direct" and free:
        if rng.random() < 0.5:
            c.append(x)
        else:
            c.extend({what["id"]: x})
        late.append(True)
    elif by == "bulk" and free:
        setattr(host, COLL[level], list(c) + [x])
        late.append(True)
    elif by == "dict" and level == "experiment":
        from mt_metadata.timeseries import Experiment
        e = Experiment()
        e.add_survey(x)
        host.from_dict(e.to_dict())
    else:
        getattr(host, ADD[level])(x)
        done = "add"
    if depth or late:
        refresh(chain)
    return done, depth


def bad(o, step):
    """Something that is turned away."""
    level = xg.kind(o)
    what = [None, 5, "mt", {"id": "x"}, object(), xg.make({"kind": "coefficient", "id": "x", "fields": []})][step["bad"]]
    if level == "run" and isinstance(what, (str, dict)):
        what = None
    try:
        getattr(o, ADD[level])(what)
    except Exception as e:
        if isinstance(e, (NameError,)):
            raise Violation("rejected for the wrong reason", f"{type(e).__name__}: {e}")
        return
    raise Violation("not rejected", f"{what!r} was added to a {level}")


def everything(o):
    k = xg.kind(o)
    for x in getattr(o, COLL[k]) if k in COLL else ():
        everything(x)
    refresh([o])


def build(plan, b, count, trail):
    top = plan["top"]
    o = start(top)
    late = []
    for step in b:
        if "bad" in step:
            bad(o, step)
            count["rejected"] += 1
            continue
        done = deliver(top, o, plan["deliveries"][step["take"]], step, late)
        count["delivered"] += 1
        trail.append([done[0], done[1]])
    if late:
        everything(o)
    return o


def members(plan, world, count, trail):
    top = plan["top"]
    want = spans(top)
    ref = view(make(top)) if top["kind"] != "experiment" else view(whole(top))
    for j, b in enumerate(plan["builds"]):
        what = f"order {j}"
        try:
            o = build(plan, b, count, trail)
        except Violation:
            raise
        except Exception as e:
            if not raised_in_library(e):
                raise
            raise Violation("delivery failed", f"{what}: {type(e).__name__}: {str(e)[:200]}")
        agree(want, facts(o), what, count)
        same(ref, view(o), what)


def whole(top):
    e = start(top)
    for s in top["surveys"]:
        e.add_survey(make(s))
    return e


# ------------------------------------------------------------- pieces in files
def save(e, fn, form):
    if form == "xml":
        e.to_xml(fn)
    else:
        e.to_json(fn, nested="nested" in form)


def collect(d, tries):
    """Read every file of a directory into one experiment, in the order the disk lists them."""
    from mt_metadata.timeseries import Experiment
    e = Experiment()
    failed = 0
    left = [n for n in os.listdir(d)]
    seen = list(left)
    while left:
        n = left[0]
        try:
            fn = os.path.join(d, n)
            e.from_xml(fn) if n.endswith("xml") else e.from_json(fn)
        except OSError:
            failed += 1
            if failed > tries:
                raise
            continue
        left.pop(0)
    return seen, failed, facts(e), view(e)


def files(plan, world, count, trail):
    top = plan["top"]
    want = spans(top)
    d = world.path("pieces")
    os.makedirs(d)
    for i, item in enumerate(plan["deliveries"]):
        what = item["what"]
        for x in reversed(find(top, item["path"])[1:]):
            w = bare(x)
            if x["kind"] == "survey":
                w["filters"] = []
            w[KEY[x["kind"]]] = [what]
            what = w
        e = whole({"kind": "experiment", "surveys": [what]})
        fn = os.path.join(d, f"p{i}.{plan['forms'][i].split()[0]}")
        if plan["save_faults"][i]:
            r = world.process(save, e, fn, plan["forms"][i], faults=plan["save_faults"][i], tear=plan["tear"] + i)
            trail.append(["save", r[0]])
        r = world.process(save, e, fn, plan["forms"][i])
        if r[0] != "ok":
            raise Violation("saving failed", f"piece {i}: {r[1:]}")
    first = None
    for j in range(len(plan["builds"])):
        what = f"listing {j}"
        fl = plan["faults"][j]
        r = world.process(collect, d, 4, faults=fl, listseed=plan["listseed"][j])
        if r[0] != "ok" and fl:
            count["failed_reads"] += 1
            r = world.process(collect, d, 0, listseed=plan["listseed"][j])
        if r[0] != "ok":
            raise Violation("reading failed", f"{what}: {r[1:]}")
        seen, failed, got, v = r[1]
        count["failed_reads"] += failed
        count["delivered"] += len(seen)
        trail.append(["read", seen, failed])
        agree(want, got, what, count)
        if first is not None:
            same(first, v, what)
        first = first or v


def execute(plan, world):
    count = {"delivered": 0, "rejected": 0, "compared": 0, "failed_reads": 0}
    trail = []
    from .c13x import run
    try:
        {"mtml": run, "files": files, "members": members}[plan["kind"]](plan, world, count, trail)
    except Violation:
        raise
    except Exception as e:
        if not raised_in_library(e):
            raise
        raise Violation("operation failed", f"{type(e).__name__}: {str(e)[:200]}")
    d = digest([trail, norm(repr(sorted(count.items())), world.root)])
    return {"count": count, "digest": d, "state": d, "states": [digest([plan["kind"], trail])] + [digest(t) for t in trail], "nontrivial": count["delivered"] > 2,
            "evals": max(1, count["compared"]), "sample": {"kind": plan["kind"], "steps": trail[:12]}}


def warm():
    from . import c12
    c12.warm()
