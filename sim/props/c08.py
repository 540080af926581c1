"""C08: a damaged file is refused or read truthfully, in bounded work."""
import os
import re

import numpy as np

from sim.sched import StepBudget
from sim.world import SimHang, Violation, norm
from . import files as fl
from . import tfgen
from . import things as th
from .common import LIBDIR, digest

ID = "C08"
TIMEOUT = 600
SLACK = 3_000_000
WHOLE = ("xml", "exp.xml", "exp.json", "sta.xml")       # forms that say where they end


def generate(rng, tier, idx):
    plan = {"clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0, "damage": []}
    if rng.random() < 0.5:
        ship = fl.shipped(slow=tier != "quick")
        plan["file"] = list(rng.choice(ship))
    else:
        ob = fl.gen_object(rng, kinds=("tf", "tf", "tf", "exp", "station"))
        plan["object"] = ob
        plan["how"] = fl.gen_how(rng, ob)
    for _ in range(rng.randint(6, 14 if tier == "quick" else 60)):
        d = {"do": rng.choice(["cut", "cut", "cut", "line", "line", "number", "number", "block", "zeros", "lost", "fault"]), "at": rng.random(), "way": rng.randrange(2)}
        if rng.random() < 0.25:
            d["at"] = 1 - (1 - d["at"]) ** 3 * 0.1       # near the end
        if d["do"] == "fault":
            d["faults"] = [{"at": rng.choice([0, 1, 1, 2, 3, 5, 8]), "match": rng.choice(["read", "read", "open", "any"]), "do": rng.choice(["EIO", "EIO", "EACCES", "EINTR", "short"]),
                            "sticky": rng.random() < 0.4}]
        plan["damage"].append(d)
    return plan


def marks(text, kind):
    """Places of interest."""
    if kind == "line":
        return [m.end() for m in re.finditer(rb"\n", text)]
    if kind == "block":
        return [m.start() for m in re.finditer(rb"\n>|\n\$|\n *period|\n[A-Z]{3} *[A-Z]{0,2}\n|</|\},", text)]
    return [m.start() + 1 + (m.end() - m.start()) // 2 for m in re.finditer(rb"-?\d+\.\d+([eE][-+]?\d+)?", text)]


def damage(d, text):
    """What is left of the file."""
    if d["do"] in ("line", "number", "block"):
        m = marks(text, d["do"]) or [0]
        return text[:m[int(d["at"] * len(m))]]
    k = int(d["at"] * len(text))
    if d["do"] == "cut":
        return text[:k]
    if d["do"] == "zeros":
        return text[:k] + bytes(len(text) - k)
    if d["do"] == "lost":           # the last blocks never reached the disk
        k = k // 512 * 512
        return text[:k] + bytes(len(text) - k)
    return text


def facts(o):
    """Periods and numbers of a transfer function, by name."""
    n = type(o).__name__
    if n == "TF":
        obs = tfgen.observe(o)
        return obs["period"], {k: obs[k] for k in ("z", "zerr", "t", "terr", "isp", "res")}
    if n == "JFile" or n == "ZongeMTAvg":
        f = o.frequency if hasattr(o, "frequency") else None
        p = 1.0 / np.asarray(f, dtype=float) if f is not None else np.asarray(o.periods, dtype=float)
        return p, {k: np.asarray(getattr(o, k)) for k in ("z", "z_err", "t", "t_err") if getattr(o, k, None) is not None}
    if n == "ZMM":
        d = {k: np.asarray(getattr(o, k)) for k in ("transfer_functions", "sigma_e", "sigma_s") if getattr(o, k, None) is not None}
        return np.asarray(o.periods, dtype=float), d
    if n == "EDI":
        f = o.frequency
        p = np.array([]) if f is None else 1.0 / np.asarray(f, dtype=float)
        return p, {k: np.asarray(getattr(o, k)) for k in ("z", "z_err", "t", "t_err") if getattr(o, k, None) is not None}
    return None


VALUE = {"zerr": "z", "terr": "t", "z_err": "z", "t_err": "t"}


def missing(v):
    return np.isnan(v) | (v == 0)


def parts(a):
    a = np.asarray(a)
    return [("real", a.real), ("imag", a.imag)] if a.dtype.kind == "c" else [("", a)]


def untrue(good, bad):
    """What a damaged read says that the intact file does not: [(index of period, text)]."""
    (gp, gd), (bp, bd) = good, bad
    out = []
    where = {}
    for i, p in enumerate(gp):
        where.setdefault(float(p), i)
    rows = []
    for i, p in enumerate(bp):
        p = float(p)
        if p in where:
            rows.append((i, where[p]))
        elif np.isfinite(p) and p != 0:
            out.append((i, f"a period of {p!r}, which the intact file has not"))
    for k, b in bd.items():
        if b.size == 0:
            continue
        if k not in gd:
            if not np.all(missing(np.nan_to_num(b))):
                out.append((-1, f"{k}, which the intact file has not"))
            continue
        g = gd[k]
        if b.shape[1:] != g.shape[1:] or b.shape[0] != len(bp):
            out.append((-1, f"{k} of shape {b.shape} for {len(bp)} periods, intact {g.shape}"))
            continue
        for name, x in parts(b):
            y = dict(parts(g)).get(name)
            if y is None:
                y = np.zeros(g.shape)
            for i, j in rows:
                e = ~(missing(x[i]) | (x[i] == y[j]))
                if VALUE.get(k) in bd:          # the error of a value that is missing says nothing
                    e &= ~missing(bd[VALUE[k]][i])
                if e.any():
                    at = tuple(int(v) for v in np.argwhere(e)[0])
                    out.append((i, f"{k}.{name}{at} = {x[i][at]!r} at period {float(bp[i])!r}, intact {y[j][at]!r}"))
    return out


def attempt(world, form, fn, way, budget, faults=()):
    world.disk_on(faults)
    b = StepBudget(LIBDIR, budget)
    got, err = None, None
    try:
        with b:
            got = fl.read(form, fn, way)
            f = facts(got)
    except SimHang as e:
        err = e
    except Exception as e:
        err = e
    fired = [tuple(x) for x in world.faults.fired]
    world.disk_off()
    return got, (f if err is None else None), err, b.n, fired


def execute(plan, world):
    os.makedirs(world.path("out"))
    if "file" in plan:
        form, name = plan["file"]
        src = os.path.join(fl.DATA, name)
        with open(src, "rb") as f:
            text = f.read()
        label = os.path.basename(name)
    else:
        form = plan["how"]["form"]
        o = fl.make(plan["object"])
        src = world.path("out", f"made.{form}")
        fl.save(o, plan["how"], src)
        with open(src, "rb") as f:
            text = f.read()
        label = f"written {form}"
    fn = world.path("out", f"f.{form}")
    ways = fl.readers(form)
    count = {"refused": 0, "truthful": 0, "partial_number": 0, "same": 0, "unreadable_source": 0}
    trail, good = [], {}
    for way in ways:
        with open(fn, "wb") as f:
            f.write(text)
        got, fact, err, n, _ = attempt(world, form, fn, way, 400_000_000)
        if err is not None:
            count["unreadable_source"] += 1
            continue
        good[way] = (fact, n, th.deep(got) if form in WHOLE and fact is None else None)
    for j, d in enumerate(plan["damage"]):
        way = ways[d["way"] % len(ways)]
        if way not in good:
            continue
        fact, steps, whole = good[way]
        left = damage(d, text)
        with open(fn, "wb") as f:
            f.write(left)
        got, f2, err, n, fired = attempt(world, form, fn, way, 4 * steps + SLACK, d.get("faults", ()))
        what = f"damage {j} ({d['do']} at {d['at']:.4f}: {len(left.rstrip(bytes(1)))} of {len(text)} bytes of {label}, read as {way})"
        if isinstance(err, SimHang):
            raise Violation("no termination", f"{what}: {err}, the intact file takes {steps}")
        if err is not None:
            # lxml gives up when an open is interrupted
            if left == text and all(x[0] in ("short", "EINTR") for x in fired) and not (form == "sta.xml" and ("EINTR", "open-read") in fired):
                raise Violation("refused for nothing", f"{what}: the disk only gave {fired or 'what is there'}: {type(err).__name__}: {err}")
            count["refused"] += 1
            trail.append([d["do"], "refused", type(err).__name__])
            continue
        if form in WHOLE and left != text and left.rstrip() != text.rstrip():
            raise Violation("damaged file accepted", f"{what}: no error was raised")
        if fact is None:
            if whole is not None:
                x = th.first_difference(whole, th.deep(got))
                if x:
                    raise Violation("read differently", f"{what}: {x}")
            count["same"] += 1
            trail.append([d["do"], "same"])
            continue
        wrong = untrue(fact, f2)
        if left == text and not any(x[0] not in ("short", "EINTR") for x in fired):
            if wrong or len(f2[0]) != len(fact[0]):
                raise Violation("read differently", f"{what}: the disk only gave {fired or 'what is there'}: {wrong[:1] or 'periods are missing'}")
            count["same"] += 1
            continue
        places = {i for i, _ in wrong}
        if len(places) > 1 or -1 in places or (wrong and d["do"] not in ("cut", "number", "zeros", "lost")):
            raise Violation("made up numbers", f"{what}: {wrong[0][1]} ({len(places)} places)")
        count["partial_number" if wrong else "truthful"] += 1
        trail.append([d["do"], "partial" if wrong else "truthful", len(f2[0]) == len(fact[0])])
    dg = digest([label, trail, count])
    return {"count": count, "digest": dg, "state": dg, "states": [digest([label, t]) for t in trail], "nontrivial": bool(trail), "evals": len(trail),
            "sample": {"file": label, "damage": trail[:6]}}


def warm():
    from . import c07
    c07.warm()
