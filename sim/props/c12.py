"""C12: containers agree with their history."""
import random

from sim.world import Violation, norm
from . import expgen as xg
from . import things as th
from .common import digest

ID = "C12"
TIMEOUT = 180
LEVELS = ["experiment", "survey", "station", "run"]
COLL = {"experiment": "surveys", "survey": "stations", "station": "runs", "run": "channels"}
KID = {"experiment": "survey", "survey": "station", "station": "run", "run": "channel"}
ADD = {"experiment": "add_survey", "survey": "add_station", "station": "add_run", "run": "add_channel"}
REMOVE = {"experiment": "remove_survey", "survey": "remove_station", "station": "remove_run", "run": "remove_channel"}
GET = {"experiment": "get_survey", "survey": "get_station", "station": "get_run", "run": "get_channel"}
HAS = {"experiment": "has_survey", "survey": "has_station", "station": "has_run", "run": "has_channel"}
INDEX = {"experiment": "survey_index", "survey": "station_index", "station": "run_index", "run": "channel_index"}
COUNT = {"experiment": "n_surveys", "survey": "n_stations", "station": "n_runs", "run": "n_channels"}
REKEY = {"survey": "update_station_keys", "station": "update_run_keys", "run": "update_channel_keys"}
TREE_OPS = ["add"] * 6 + ["remove"] * 3 + ["rename"] * 2 + ["merge", "merge", "bulk", "bulk", "reorder", "direct", "direct", "list", "list",
                                                            "sort", "sort", "time sort", "filter", "filter", "reject", "reject", "reload", "detour"]
LIST_OPS = ["append"] * 5 + ["set key", "set key", "set index", "set index", "remove", "remove", "remove index", "pop", "pop", "rename", "rename",
                             "extend", "update", "sort", "clear", "copy", "reject", "reject", "slice"]


# ------------------------------------------------------------------ generate
def gen_kid(rng, level):
    if level == "survey":
        return xg.gen_survey(rng, False)
    if level == "station":
        return xg.gen_station(rng, [], False)
    if level == "run":
        return xg.gen_run(rng, [], False)
    return xg.gen_channel(rng, [], False)


def thin(d):
    """Fields play no part here; markers do."""
    d["fields"] = [f for f in d["fields"] if d["kind"] in xg.FILTERS or f[0].startswith("location.")]
    for k in ("stations", "runs", "channels", "filters"):
        for x in d.get(k, []):
            thin(x)
    return d


def generate(rng, tier, idx):
    big = tier != "quick"
    n = rng.randint(3, 14 if not big else 40)
    if rng.random() < 0.3:
        plan = {"kind": "listdict", "what": rng.choice(["id", "component", "plain", "mixed"]), "ops": []}
        for _ in range(rng.randint(4, 20 if not big else 50)):
            plan["ops"].append({"do": rng.choice(LIST_OPS), "seed": rng.randrange(1 << 30)})
        return plan
    plan = {"kind": "tree", "exp": {"surveys": [thin(s) for s in xg.gen_experiment(rng)["surveys"]]}, "ops": []}
    for _ in range(n):
        do = rng.choice(TREE_OPS)
        lv = rng.choice(LEVELS)
        op = {"do": do, "level": lv, "at": [rng.randrange(4) for _ in range(4)], "seed": rng.randrange(1 << 30)}
        if do in ("add", "direct"):
            op["what"] = thin(gen_kid(rng, KID[lv]))
        elif do in ("merge", "detour"):
            if lv == "experiment":
                op["what"] = {"surveys": [thin(s) for s in xg.gen_experiment(rng)["surveys"]]}
            else:
                op["what"] = thin(gen_kid(rng, lv))
        elif do == "bulk":
            kids = {}
            for _ in range(rng.choice([0, 1, 2, 3])):
                k = thin(gen_kid(rng, KID[lv]))
                kids[k["id"]] = k
            op["what"] = list(kids.values())
        elif do == "filter":
            op["what"] = xg.gen_filter(rng, False)
        plan["ops"].append(op)
    return plan


# --------------------------------------------------------------------- model
class Node:
    """What should be there: level, name, marker, class and members by key, in order."""

    def __init__(self, level, name, mark=None, cls=None):
        self.level, self.name, self.mark, self.cls, self.kids, self.filters = level, name, mark, cls, {}, {}

    def merge(self, other):
        """The same member arrives again."""
        if other.mark is not None:
            self.mark = other.mark
        for k, x in other.kids.items():
            if k in self.kids:
                self.kids[k].merge(x)
            else:
                self.kids[k] = x.clone()
        self.filters.update(other.filters)

    def clone(self):
        n = Node(self.level, self.name, self.mark, self.cls)
        n.kids = {k: x.clone() for k, x in self.kids.items()}
        n.filters = dict(self.filters)
        return n


SERIAL = [0]


def make(d):
    """(object, model) of a description, every member with a marker of its own."""
    o = xg.make(d)
    return o, mark(o)


def mark(o):
    k = xg.kind(o)
    level = "channel" if k in xg.COMPS else k
    SERIAL[0] += 1
    m = f"m{SERIAL[0]}"
    if level == "experiment":
        n = Node(level, None)
    else:
        o.comments.value = m
        n = Node(level, o.component if level == "channel" else o.id, m, type(o).__name__)
    if level == "survey":
        for key, f in o.filters.items():
            SERIAL[0] += 1
            f.comments.value = f"m{SERIAL[0]}"
            n.filters[key] = f"m{SERIAL[0]}"
    for key, x in getattr(o, COLL[level]).items() if level in COLL else ():
        n.kids[key] = mark(x)
    return n


def check(o, n, where, count):
    """The object is what the model says."""
    def bad(kind, text):
        raise Violation(kind, f"{where}: {text}")
    count["compared"] += 1
    if n.level != "experiment":
        name = o.component if n.level == "channel" else o.id
        if name != n.name:
            bad("wrong member", f"is called {name!r}, should be {n.name!r}")
        if o.comments.value != n.mark:
            bad("wrong member", f"is not the one that was put there ({o.comments.value!r}, should be {n.mark!r})")
        if type(o).__name__ != n.cls:
            bad("wrong member", f"is a {type(o).__name__}, should be a {n.cls}")
    if n.level == "channel":
        return
    c = getattr(o, COLL[n.level])
    want = list(n.kids)
    keys = list(c.keys())
    if keys != want:
        bad("wrong members", f"has {keys}, should have {want}")
    if len(c) != len(want) or getattr(o, COUNT[n.level]) != len(want):
        bad("wrong count", f"counts {len(c)}/{getattr(o, COUNT[n.level])} of {want}")
    it = list(c)
    if [k for k, _ in c.items()] != want or [id(x) for x in it] != [id(x) for x in c.values()]:
        bad("wrong members", f"iterates over {[k for k, _ in c.items()]}, should be {want}")
    names = want
    if n.level == "run":
        names = sorted(want)
        if list(o.channels_recorded_all) != names:
            bad("wrong list", f"lists channels {o.channels_recorded_all}, has {names}")
        for cl in ("Electric", "Magnetic", "Auxiliary"):
            got = sorted(getattr(o, f"channels_recorded_{cl.lower()}"))
            exp = sorted(k for k, x in n.kids.items() if x.cls == cl)
            if got != exp:
                bad("wrong list", f"lists {cl.lower()} channels {got}, has {exp}")
    elif n.level == "station":
        if list(o.run_list) != want:
            bad("wrong list", f"lists runs {o.run_list}, has {want}")
    else:
        got = list(o.survey_names if n.level == "experiment" else o.station_names)
        if got != want:
            bad("wrong list", f"lists {got}, has {want}")
    for i, k in enumerate(want):
        a = c[k]
        if c[i] is not a or it[i] is not a:
            bad("not found", f"{k!r} by name is not number {i}")
        if getattr(o, GET[n.level])(k) is not a:
            bad("not found", f"{GET[n.level]}({k!r}) gives something else than the member of that name")
        if not getattr(o, HAS[n.level])(k):
            bad("not found", f"{HAS[n.level]}({k!r}) is false")
        if getattr(o, INDEX[n.level])(k) != names.index(k):
            bad("wrong position", f"{INDEX[n.level]}({k!r}) is {getattr(o, INDEX[n.level])(k)}, is number {names.index(k)} of {names}")
        check(a, n.kids[k], f"{where}/{k}", count)
    ghost = "no such thing"
    if getattr(o, HAS[n.level])(ghost) or getattr(o, GET[n.level])(ghost) is not None or getattr(o, INDEX[n.level])(ghost) is not None:
        bad("found what is not there", f"{ghost!r}")
    if n.level == "survey":
        if list(o.filters.keys()) != list(n.filters) or list(o.filter_names) != list(n.filters):
            bad("wrong filters", f"has filters {list(o.filters.keys())}, should have {list(n.filters)}")
        for k, m in n.filters.items():
            if o.filters[k].comments.value != m:
                bad("wrong filter", f"{k!r} is not the one that was put there")


def pick(o, n, level, at):
    """Object and model of a container, or (None, None)."""
    for i, lv in enumerate(LEVELS):
        if lv == level:
            return o, n
        if not n.kids:
            return None, None
        k = list(n.kids)[at[i] % len(n.kids)]
        o, n = getattr(o, COLL[lv])[k], n.kids[k]
    return None, None


def refresh(o, level):
    """What is documented to be called after a change behind the back of the container."""
    if level in ("survey", "station"):
        o.update_all()


def refused(what, f, top, allow=()):
    """A rejected operation raises, or says no, and changes nothing."""
    before = th.deep(top)
    try:
        f()
    except allow:
        pass
    except Exception as e:
        if isinstance(e, (UnboundLocalError, NameError, AttributeError)):
            raise Violation("rejected for the wrong reason", f"{what}: {type(e).__name__}: {e}")
    else:
        if allow != ():
            raise Violation("not rejected", what)
    d = th.first_difference(before, th.deep(top))
    if d:
        raise Violation("changed by a rejected operation", f"{what}: {d}")


def tree_op(op, top, tree, what, count):
    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.timeseries import Auxiliary, Electric, Experiment, Magnetic, Run, Station, Survey
    rng = random.Random(op["seed"])
    do, lv = op["do"], op["level"]
    o, n = pick(top, tree, lv, op["at"])
    if o is None:
        return top, False
    c = getattr(o, COLL[lv])
    keys = list(n.kids)
    if do == "add":
        if lv == "run" and rng.random() < 0.4:
            k, comp = op["what"]["kind"], op["what"]["id"]
            if rng.random() < 0.5 and comp[0] in "ehb":
                o.add_channel(comp)
                m = Node("channel", comp, None, {"e": "Electric", "h": "Magnetic", "b": "Magnetic"}[comp[0]])
            else:
                d = {"type": rng.choice([k, None]) if comp[0] in "ehb" else k, "component": comp}
                SERIAL[0] += 1
                if rng.random() < 0.7:
                    d["comments"] = f"m{SERIAL[0]}"
                o.add_channel(d)
                m = Node("channel", comp, d.get("comments"), k.capitalize())
        else:
            x, m = make(op["what"])
            if lv == "experiment" or rng.random() < 0.7:
                getattr(o, ADD[lv])(x)
            else:
                getattr(o, ADD[lv])(x, update=False)
                refresh(o, lv)
        if m.name in n.kids:
            n.kids[m.name].merge(m)
        else:
            n.kids[m.name] = m
        return top, True
    if do == "remove":
        k = rng.choice(keys + ["nothing"])
        how = rng.choice(["method", "method", "method", "key", "index", "pop"])
        if lv == "run":
            how = "method"
        if k == "nothing":
            refused(f"{what}: remove a missing one", lambda: getattr(o, REMOVE[lv])(k), top)
            return top, True
        if how == "method":
            if lv in ("survey", "station") and rng.random() < 0.3:
                getattr(o, REMOVE[lv])(k, update=False)
                refresh(o, lv)
            else:
                getattr(o, REMOVE[lv])(k)
        else:
            if how == "key":
                c.remove(k)
            elif how == "index":
                c.remove(keys.index(k))
            else:
                c.pop(k)
            refresh(o, lv)
        del n.kids[k]
        return top, True
    if do == "rename":
        if not keys:
            return top, False
        pool = [x for v in xg.COMPS.values() for x in v] if lv == "run" else xg.NAMES[KID[lv]]
        some = rng.sample(keys, min(len(keys), rng.choice([1, 1, 2, 3])))
        if len(some) > 1 and rng.random() < 0.5:    # change places
            new = some[1:] + some[:1]
        else:
            new = [rng.choice(pool) for _ in some]
        if lv == "run" and any(n.kids[a].cls != dict((x, k.capitalize()) for k, v in xg.COMPS.items() for x in v)[b] for a, b in zip(some, new)):
            return top, False
        objs = [c[k] for k in some]
        for x, a, b in zip(objs, some, new):
            if lv == "run":
                x.component = b
            else:
                x.id = b
            n.kids[a].name = b
        ids = [x.name for x in n.kids.values()]
        res = getattr(o, REKEY[lv])() if lv in REKEY else c.update_keys()
        now = list(c.keys())
        if len(now) != len(keys):
            raise Violation("member lost", f"{what}: renaming {list(zip(some, new))} left {now} of {keys}")
        if len(set(ids)) == len(ids):
            if now != ids:
                raise Violation("wrong members", f"{what}: renamed {list(zip(some, new))}: has {now}, should have {ids}")
            if dict(res) != {a: b for a, b in zip(keys, ids) if a != b}:
                raise Violation("wrong report", f"{what}: renaming {list(zip(some, new))} reported {res}")
        n.kids = dict(zip(now, n.kids.values()))
        if len(set(ids)) != len(ids):
            # put it right again
            used = set()
            for i, (k, x) in enumerate(list(n.kids.items())):
                nm = x.name
                if nm in used or nm != k:
                    nm = k
                if lv == "run":
                    c[i].component = nm
                else:
                    c[i].id = nm
                x.name = nm
                used.add(nm)
            if lv in REKEY:
                getattr(o, REKEY[lv])()
            else:
                c.update_keys()
        return top, True
    if do in ("merge", "detour"):
        if lv == "experiment":
            x = xg.experiment(op["what"])
            m = mark(x)
        else:
            x, m = make(op["what"])
        if do == "detour" or lv == "run" and rng.random() < 0.4:
            if lv != "run":
                return top, False
            before = th.deep(top)
            res = o.merge(x, inplace=False)
            d = th.first_difference(before, th.deep(top))
            if d:
                raise Violation("changed by merging into a new object", f"{what}: {d}")
            want = n.clone()
            for k, y in m.kids.items():
                want.kids[k] = y
            check(res, want, what, count)
            return top, True
        if lv in ("survey", "station") and rng.random() < 0.5:
            o.merge(x, inplace=True)
        elif lv == "run":
            o.merge(x, inplace=True)
        else:
            o.merge(x)
        for k, y in m.kids.items():
            n.kids[k] = y
        return top, True
    if do == "bulk":
        objs = [make(d) for d in op["what"]]
        how = rng.choice(["list", "tuple", "dict", "listdict"])
        val = [x for x, _ in objs]
        if how == "tuple":
            val = tuple(val)
        elif how == "dict":
            val = {f"k{i}": x for i, x in enumerate(val)}
        elif how == "listdict":
            v = ListDict()
            for x in val:
                v.append(x)
            val = v
        setattr(o, COLL[lv], val)
        if lv == "run":
            o._update_channels_recorded()
        n.kids = {m.name: m for _, m in objs}
        return top, True
    if do == "reorder":
        order = keys[:]
        rng.shuffle(order)
        keep = order[:rng.randint(0, len(order))] if rng.random() < 0.4 else order
        setattr(o, COLL[lv], [c[k] for k in keep])
        if lv == "run":
            o._update_channels_recorded()
        n.kids = {n.kids[k].name: n.kids[k] for k in keep}
        return top, True
    if do == "direct":
        if lv == "run":
            return top, False
        x, m = make(op["what"])
        how = rng.choice(["append", "key", "index", "extend", "update"])
        if how == "append":
            c.append(x)
        elif how == "key":
            c[x.id] = x
        elif how == "index":
            c[len(keys) if x.id not in keys else keys.index(x.id)] = x
        elif how == "extend":
            c.extend({x.id: x})
        else:
            c.update({x.id: x})
        refresh(o, lv)
        n.kids[m.name] = m
        return top, True
    if do == "list":
        if lv == "station":
            new = rng.sample(["z1", "z2", "a"], rng.randint(0, 2))
            o.run_list = rng.sample(keys, rng.randint(0, len(keys))) + [x for x in new if x not in keys] if rng.random() < 0.5 else keys + [x for x in new if x not in keys]
            for x in new:
                if x not in keys:
                    n.kids[x] = Node("run", x, None, "Run")
            return top, True
        if lv == "run":
            cl = rng.choice(["electric", "magnetic", "auxiliary"])
            new = [x for x in rng.sample(xg.COMPS[cl], rng.randint(0, 2)) if x not in keys]
            have = [k for k in keys if n.kids[k].cls.lower() == cl]
            setattr(o, f"channels_recorded_{cl}", have + new)
            for x in new:
                n.kids[x] = Node("channel", x, None, cl.capitalize())
            return top, True
        return top, False
    if do == "sort":
        if lv == "experiment" and rng.random() < 0.7:
            inplace = rng.random() < 0.7
            if inplace:
                top.sort()
                sort_all(tree)
            else:
                before = th.deep(top)
                res = top.sort(inplace=False)
                d = th.first_difference(before, th.deep(top))
                if d:
                    raise Violation("changed by sorting into a new object", f"{what}: {d}")
                want = tree.clone()
                sort_all(want)
                check(res, want, what, count)
            return top, True
        if rng.random() < 0.5:
            c.sort()
            n.kids = {k: n.kids[k] for k in sorted(keys)}
            refresh(o, lv)
            return top, True
        before = th.deep(top)
        res = c.sort(inplace=False)
        if list(res.keys()) != sorted(keys) or any(res[k] is not c[k] for k in keys):
            raise Violation("wrong members", f"{what}: sorted list has {list(res.keys())}, should have {sorted(keys)}")
        d = th.first_difference(before, th.deep(top))
        if d:
            raise Violation("changed by sorting into a new object", f"{what}: {d}")
        return top, True
    if do == "time sort":
        if lv != "station":
            return top, False
        starts = {}
        for i, k in enumerate(keys):
            if rng.random() < 0.7:
                c[k].time_period.start = f"2020-0{rng.randrange(1, 6)}-01T00:00:00"
                c[k].time_period.end = "2021-01-01T00:00:00"
            starts[k] = str(c[k].time_period.start)
        inplace, up = rng.random() < 0.7, rng.random() < 0.6
        before = th.deep(top)
        res = o.sort_runs_by_time(inplace=inplace, ascending=up)
        got = list((o.runs if inplace else res).keys())
        if sorted(got) != sorted(keys):
            raise Violation("wrong members", f"{what}: sorted by time has {got}, should have {sorted(keys)}")
        for a, b in zip(got, got[1:]):
            if starts[a] > starts[b] if up else starts[a] < starts[b]:
                raise Violation("wrong order", f"{what}: {a!r} ({starts[a]}) comes before {b!r} ({starts[b]}), {'ascending' if up else 'descending'}")
        if inplace:
            n.kids = {k: n.kids[k] for k in got}
        else:
            d = th.first_difference(before, th.deep(top))
            if d:
                raise Violation("changed by sorting into a new object", f"{what}: {d}")
        return top, True
    if do == "filter":
        if lv != "survey":
            return top, False
        how = rng.choice(["set", "set", "set", "remove", "pop", "bulk"])
        f = xg.make(op["what"])
        SERIAL[0] += 1
        f.comments.value = f"m{SERIAL[0]}"
        fk = list(n.filters)
        if how == "set" or not fk:
            o.filters[f.name] = f
            n.filters[f.name] = f.comments.value
        elif how == "bulk":
            o.filters = {f.name: f}
            n.filters = {f.name: f.comments.value}
        else:
            k = rng.choice(fk)
            getattr(o.filters, how)(k)
            del n.filters[k]
        return top, True
    if do == "reject":
        wrong = {"experiment": Station(id="w"), "survey": Run(id="w"), "station": Electric(component="ex"), "run": Station(id="w")}[lv]
        good = {"experiment": Survey(id="g"), "survey": Station(id="g"), "station": Run(id="g"), "run": Electric(component="e1")}[lv]
        E = (TypeError, ValueError, KeyError, IndexError, NotImplementedError)
        which = rng.choice(["add", "add text", "bulk", "bulk", "bulk type", "merge", "get", "get index", "pop", "remove key", "remove index", "slice set", "extend", "filters", "key type"])
        acts = {"add": lambda: getattr(o, ADD[lv])(wrong),
                "add text": lambda: getattr(o, ADD[lv])(7),
                "bulk": lambda: setattr(o, COLL[lv], [good, wrong, good]),
                "bulk type": lambda: setattr(o, COLL[lv], rng.choice([5, None, "text", 2.5])),
                "merge": lambda: o.merge(rng.choice([wrong, 5, "x", None])),
                "get": lambda: c["nothing"], "get index": lambda: c[len(keys) + 2],
                "pop": lambda: c.pop("nothing"), "remove key": lambda: c.remove("nothing"), "remove index": lambda: c.remove(len(keys) + 1),
                "slice set": lambda: c.__setitem__(slice(0, 1), good), "extend": lambda: c.extend([good]),
                "filters": lambda: setattr(o, "filters", rng.choice([[{"type": "unheard of", "name": "x"}], [{"type": None, "name": "x"}], {"a": good}, [good], 5])) if lv == "survey" else c["nothing"],
                "key type": lambda: c[2.5]}
        refused(f"{what}: {which}", acts[which], top, E)
        return top, True
    if do == "reload":
        how = rng.choice(["copy", "dict", "json"])
        if how == "copy":
            return top.copy(), True
        new = Experiment()
        if how == "dict":
            new.from_dict(top.to_dict())
        else:
            new.from_json(top.to_json())
        return new, True
    return top, False


def sort_all(n):
    n.kids = {k: n.kids[k] for k in sorted(n.kids)}
    for x in n.kids.values():
        sort_all(x)


# ------------------------------------------------------------------ keyed lists
class WithId:
    def __init__(self, n):
        self.id = n


class WithComponent:
    def __init__(self, n):
        self.component = n


class Plain:
    pass


def list_run(plan, world, count):
    from mt_metadata.common.list_dict import ListDict
    ld = ListDict()
    model = {}
    trail = []
    others = []
    names = ["a", "b", "c", "d", "0", "1", "2", "3", "10"]

    def obj(rng):
        w = plan["what"] if plan["what"] != "mixed" else rng.choice(["id", "component", "plain"])
        n = rng.choice(names)
        return (WithId(n), n) if w == "id" else (WithComponent(n), n) if w == "component" else (Plain(), None)

    def name_of(x):
        return getattr(x, "id", getattr(x, "component", None))

    for j, op in enumerate(plan["ops"]):
        rng = random.Random(op["seed"])
        do = op["do"]
        what = f"op {j} ({do} on ListDict {list(model)})"
        keys = list(model)
        if do == "append":
            x, k = obj(rng)
            ld.append(x)
            if k is None:
                k = [q for q in ld.keys() if q not in model]
                if len(k) != 1:
                    raise Violation("member lost", f"{what}: something without a name was appended, keys are now {ld.keys()}")
                k = k[0]
            model[k] = x
        elif do == "set key":
            x, k = obj(rng)
            k = k or rng.choice(names)
            ld[k] = x
            model[k] = x
        elif do == "set index":
            i = rng.randrange(len(keys) + 2)
            x, k = obj(rng)
            if i < len(keys):
                ld[i] = x
                model[keys[i]] = x
            else:
                ld[i] = x
                if k is None:
                    k = [q for q in ld.keys() if q not in model]
                    if len(k) != 1:
                        raise Violation("member lost", f"{what}: something without a name was added as number {i}, keys are now {ld.keys()}")
                    k = k[0]
                model[k] = x
        elif do == "remove" and keys:
            k = rng.choice(keys)
            ld.remove(k)
            del model[k]
        elif do == "remove index" and keys:
            i = rng.randrange(len(keys))
            ld.remove(i)
            del model[keys[i]]
        elif do == "pop" and keys:
            k = rng.choice(keys)
            got = ld.pop(k)
            if got != {k: model[k]}:
                raise Violation("wrong member", f"{what}: pop({k!r}) gave {list(got)}")
            del model[k]
        elif do == "rename" and keys:
            some = [k for k in rng.sample(keys, min(len(keys), rng.choice([1, 2, 3]))) if name_of(model[k]) is not None]
            new = some[1:] + some[:1] if rng.random() < 0.4 else [rng.choice(names) for _ in some]
            for k, b in zip(some, new):
                x = model[k]
                if hasattr(x, "id"):
                    x.id = b
                else:
                    x.component = b
            ids = [name_of(model[k]) or k for k in keys]
            res = ld.update_keys()
            now = ld.keys()
            if len(now) != len(keys):
                raise Violation("member lost", f"{what}: objects now called {ids}, update_keys left {now}")
            if len(set(ids)) == len(ids) and (now != ids or dict(res) != {a: b for a, b in zip(keys, ids) if a != b}):
                raise Violation("wrong members", f"{what}: objects now called {ids}, update_keys left {now} and reported {res}")
            model = dict(zip(now, model.values()))
        elif do in ("extend", "update"):
            add = {}
            for _ in range(rng.randint(0, 3)):
                x, k = obj(rng)
                add[k or rng.choice(names)] = x
            src = add
            if rng.random() < 0.5:
                src = ListDict(add)
                others.append((src, dict(add)))
            if do == "extend":
                skip = rng.choice([[], [], list(add)[:1], tuple(names), "a", "10", "ab", "32", names])
                ld.extend(src, skip_keys=skip) if skip != [] else ld.extend(src)
                add = {k: v for k, v in add.items() if k not in ([skip] if isinstance(skip, str) else skip)}
            else:
                ld.update(src)
            model.update(add)
        elif do == "sort":
            if rng.random() < 0.6:
                ld.sort()
                model = {k: model[k] for k in sorted(model)}
            else:
                got = ld.sort(inplace=False)
                if list(got.items()) != [(k, model[k]) for k in sorted(model)]:
                    raise Violation("wrong members", f"{what}: sorted gives {list(got)}")
        elif do == "clear":
            if rng.random() < 0.3:
                ld.clear()
                model = {}
        elif do == "copy":
            cp = ld.copy()
            if cp.keys() != keys or cp is ld:
                raise Violation("wrong members", f"{what}: copy has {cp.keys()}")
            if rng.random() < 0.5 and keys:
                cp.remove(rng.choice(keys))
            if rng.random() < 0.5:
                others.append((ld, dict(model)))
                ld = ListDict(ld.items())
                model = dict(model)
        elif do == "slice":
            a, b = sorted(rng.randrange(len(keys) + 1) for _ in range(2))
            sa, sb = a, b
            if rng.random() < 0.5 and a < len(keys):
                sa = keys[a]
            if rng.random() < 0.5 and b < len(keys):
                sb = keys[b]
            st = rng.choice([None, None, 1, 2])
            got = ld[sa:sb:st]
            if list(got.items()) != [(k, model[k]) for k in keys[a:b:st]]:
                raise Violation("wrong members", f"{what}: [{sa!r}:{sb!r}:{st}] gives {got.keys()}, should be {keys[a:b:st]}")
        elif do == "reject":
            which = rng.choice(["get", "index", "type", "remove", "remove index", "remove type", "pop", "slice", "extend", "update", "none"])
            acts = {"get": lambda: ld["nothing"], "index": lambda: ld[len(keys)], "type": lambda: ld[2.5], "remove": lambda: ld.remove("nothing"),
                    "remove index": lambda: ld.remove(len(keys)), "remove type": lambda: ld.remove(2.5), "pop": lambda: ld.pop("nothing"),
                    "slice": lambda: ld.__setitem__(slice(0, 1), 1), "extend": lambda: ld.extend([1]), "update": lambda: ld.update([("a", 1)]),
                    "none": lambda: ld.remove(None)}
            try:
                acts[which]()
            except (KeyError, TypeError, IndexError, ValueError, NotImplementedError):
                count["rejected"] += 1
            else:
                raise Violation("not rejected", f"{what}: {which}")
        # ---- compare
        count["operations"] += 1
        count["compared"] += 1
        want = list(model)
        if ld.keys() != want or [k for k, _ in ld.items()] != want or len(ld) != len(want):
            raise Violation("wrong members", f"{what}: has {ld.keys()}, should have {want}")
        vals, it = ld.values(), list(ld)
        for i, k in enumerate(want):
            if ld[k] is not model[k] or ld[i] is not model[k] or vals[i] is not model[k] or it[i] is not model[k]:
                raise Violation("wrong member", f"{what}: {k!r} (number {i}) is not the one that was put there")
        if not ld == ListDict(model) or (ld == ListDict({"other": 1})):
            raise Violation("wrong comparison", f"{what}")
        for o, m in others:
            if o.keys() != list(m) or any(o[k] is not m[k] for k in m):
                raise Violation("another list changed", f"{what}: has {o.keys()}, should have {list(m)}")
        trail.append([do, len(want)])
    return trail


def execute(plan, world):
    SERIAL[0] = 0
    count = {"operations": 0, "rejected": 0, "compared": 0}
    if plan["kind"] == "listdict":
        trail = list_run(plan, world, count)
        d = digest([plan, trail])
        return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["operations"] > 2,
                "evals": max(1, count["compared"]), "sample": {"ops": [o["do"] for o in plan["ops"]]}}
    top = xg.experiment(plan["exp"])
    tree = mark(top)
    check(top, tree, "at the start", count)
    trail = []
    for j, op in enumerate(plan["ops"]):
        what = f"op {j} ({op['do']} in {op['level']})"
        try:
            top, done = tree_op(op, top, tree, what, count)
        except Violation:
            raise
        except Exception as e:
            if not raised_in_library(e):
                raise
            raise Violation("operation failed", f"{what}: {type(e).__name__}: {str(e)[:200]}")
        count["operations"] += bool(done)
        count["rejected"] += op["do"] == "reject" and bool(done)
        check(top, tree, f"{what}: experiment", count)
        trail.append([op["do"], op["level"], bool(done), len(tree.kids)])
    d = digest([plan, trail, digest(norm(repr(th.deep(top)), world.root))])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["operations"] > 1,
            "evals": max(1, count["compared"]), "sample": {"ops": [[o["do"], o["level"]] for o in plan["ops"]]}}


def raised_in_library(e):
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return "/sim/props/" not in tb.tb_frame.f_code.co_filename


def warm():
    from . import metagen as mg
    mg.warm()
