"""C15: a copy is equal and independent."""
from sim import sched
from sim.world import Violation, norm
from . import metagen as mg
from . import things as th
from .common import LIBDIR, digest

ID = "C15"
TIMEOUT = 180


def generate(rng, tier, idx):
    big = tier != "quick"
    plan = {"thing": th.gen(rng, ("meta", "meta", "meta", "meta", "exp", "exp", "exp", "tf", "tf", "listdict"), rng.random() < 0.4), "ops": []}
    n = 1
    for j in range(rng.randint(3, 12 if not big else 30)):
        if j == 0 or rng.random() < 0.25 and n < 6:
            op = {"do": "copy", "on": rng.randrange(n), "via": rng.choice(["copy", "copy", "copy", "deepcopy", "part", "list"]), "at": [rng.randrange(4) for _ in range(4)]}
            n += 1
        else:
            op = dict(th.gen_op(rng), on=rng.randrange(n))
        if rng.random() < 0.12:
            op["interrupt"] = rng.randint(1, 400)
        plan["ops"].append(op)
    return plan


def execute(plan, world):
    things = [th.make(plan["thing"])]
    count = {"copies": 0, "operations": 0, "interrupted": 0, "refused": 0, "compared": 0}
    trail = []
    dumps = [th.deep(things[0])]
    for j, op in enumerate(plan["ops"]):
        i = op["on"] % len(things)
        o = things[i]
        what = f"op {j} ({op['do']} on {type(o).__name__} {i})"
        it = sched.InterruptAt(LIBDIR, op["interrupt"]) if op.get("interrupt") else None
        src = cp = None
        done = False
        err = None
        try:
            if it:
                it.__enter__()
            try:
                if op["do"] == "copy":
                    src, cp = th.copy_of(o, op)
                    done = cp is not None
                else:
                    done, _ = th.apply(o, op, world, f"o{j}")
            finally:
                if it:
                    it.__exit__()
        except KeyboardInterrupt:
            count["interrupted"] += 1
        except Exception as e:
            err = e
            count["refused"] += 1
        if op["do"] == "copy":
            if err is not None:
                raise Violation("copy failed", f"{what}: {type(err).__name__}: {err}")
            now = th.deep(o)
            d = th.first_difference(dumps[i], now)
            if d:
                raise Violation("changed by copying", f"{what}: {d}")
            if cp is not None:
                d = th.first_difference(th.deep(src), th.deep(cp))
                if d:
                    raise Violation("copy differs", f"{what} via {op['via']}: {type(cp).__name__}{d}")
                things.append(cp)
                dumps.append(th.deep(cp))
                count["copies"] += 1
        else:
            count["operations"] += bool(done)
            dumps[i] = th.deep(o)
        for q, x in enumerate(things):
            if q == i and op["do"] != "copy":
                continue
            count["compared"] += 1
            d = th.first_difference(dumps[q], th.deep(x))
            if d:
                raise Violation("not independent", f"{what} changed {type(x).__name__} {q}{d}")
        trail.append([op["do"], op.get("via"), type(o).__name__, bool(done)])
    d = digest([trail, [digest(norm(repr(x), world.root)) for x in dumps]])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["copies"] > 0 and count["operations"] > 0,
            "evals": max(1, count["compared"]), "sample": {"thing": plan["thing"].get("cls") or plan["thing"]["kind"], "ops": [o["do"] for o in plan["ops"]]}}


def warm():
    from . import tfio
    mg.warm()
    tfio.warm()
