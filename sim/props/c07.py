"""C07: a failed save is reported and harms nothing else."""
import os

from sim.world import HarnessError, Violation, norm
from . import files as fl
from . import things as th
from .common import digest

ID = "C07"
TIMEOUT = 180
HARD = ("ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE")


def gen_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        do = rng.choice(list(HARD) * 2 + ["short", "EINTR", "crash"])
        m = rng.choice(["w", "w", "open", "write", "write", "close", "any"])
        f = {"at": rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8, 12]), "match": m, "do": do, "sticky": do in HARD and rng.random() < 0.4}
        if do == "short":
            f.update(match="write", frac=rng.choice([0.01, 0.5, 0.9]))
        out.append(f)
    return out


def generate(rng, tier, idx):
    ob = fl.gen_object(rng)
    plan = {"object": ob, "ops": [], "clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0}
    for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
        op = {"how": fl.gen_how(rng, ob), "old": rng.choice(["none", "none", "short", "long", "last"]), "tear": rng.randrange(1 << 30)}
        if rng.random() < 0.12:
            op["obstacle"] = rng.choice(["directory", "no parent", "file as parent", "long name"])
        else:
            op["faults"] = gen_faults(rng)
        plan["ops"].append(op)
        if rng.random() < 0.3:
            plan["ops"].append({"do": th.gen_op(rng)})
    return plan


def save_in(world, o, how, fn, faults):
    """Save with a disk that fails; (error or None, what fired)."""
    world.disk_on(faults)
    err = None
    try:
        fl.save(o, how, fn)
    except Exception as e:
        err = e
    fired = [tuple(x) for x in world.faults.fired]
    world.disk_off()
    return err, fired


def content(fn):
    try:
        with open(fn, "rb") as f:
            return f.read()
    except OSError as e:
        return None


def others(world, fn):
    rel = os.path.relpath(fn, world.root)
    return {k: v for k, v in world.snapshot().items() if k != rel}


def settle(o, how):
    """Experiments bring what follows from their members up to date when saved as XML: let that be done before."""
    if how["form"] == "exp.xml":
        o.to_xml(required=how["required"])


def execute(plan, world):
    o = fl.make(plan["object"])
    count = {"failing_saves": 0, "reported": 0, "harmless": 0, "retries": 0, "crashes": 0, "obstacles": 0}
    for i in range(3):
        with open(world.path(f"bystander{i}.txt"), "w") as f:
            f.write("do not touch\n" * i)
    os.mkdir(world.path("out"))
    os.chdir(world.path("out"))
    trail = []
    last = None
    for j, op in enumerate(plan["ops"]):
        if "do" in op:
            if plan["object"]["kind"] in ("tf", "exp"):
                try:
                    th.apply(o, op["do"], world, f"e{j}")
                except Exception:
                    pass
            continue
        how = op["how"]
        what = f"op {j}, {how['form']}"
        fn = world.path("out", f"f{j}.{how['form']}")
        settle(o, how)
        # what a disk that works would get
        r = world.process(fl.save, o, how, fn)
        if r[0] != "ok":
            if plan["object"]["kind"] == "tf" and any("do" in x for x in plan["ops"][:j]):
                continue            # has been made into something the format cannot hold
            raise Violation("save failed", f"{what}: {r[1:]}")
        want = content(fn)
        if want is None:
            raise Violation("save failed", f"{what}: no file was made")
        os.unlink(fn)
        if op.get("obstacle"):
            if op["obstacle"] == "directory":
                os.mkdir(fn)
            elif op["obstacle"] == "no parent":
                fn = world.path("out", "nowhere", f"f{j}.{how['form']}")
            elif op["obstacle"] == "file as parent":
                fn = world.path("bystander1.txt", f"f{j}.{how['form']}")
            else:
                fn = world.path("out", "x" * 300 + "." + how["form"])
        elif op["old"] == "last" and last:
            with open(fn, "wb") as f:
                f.write(last)
        elif op["old"] != "none":
            with open(fn, "wb") as f:
                f.write(b"something\n" * (2 if op["old"] == "short" else 50000))
        before, rest = fl.look(o), others(world, fn)
        faults = op.get("faults", [])
        if any(f["do"] == "crash" for f in faults):
            r = world.process(fl.save, o, how, fn, faults=faults, tear=op["tear"])
            count["crashes"] += r[0] == "crash"
            err = r if r[0] == "raise" else None
            fired = [] if r[0] == "crash" else [tuple(x) for x in world.last_fired]
            crashed = r[0] == "crash"
        else:
            err, fired = save_in(world, o, how, fn, faults)
            crashed = False
        hard = [x for x in fired if x[0] in HARD and x[1] in ("open", "write", "close", "fsync", "rename", "truncate", "link")]
        if op.get("obstacle"):
            count["obstacles"] += 1
            if err is None and content(fn) != want:
                raise Violation("failure not reported", f"{what}: target is {op['obstacle']}, and no error was raised")
        elif hard and not crashed:
            count["failing_saves"] += 1
            if err is None:
                raise Violation("failure not reported", f"{what}: the disk said {hard}, and no error was raised")
            count["reported"] += 1
        elif not crashed:
            if err is not None and any(x[0] in HARD for x in fired):
                count["reported"] += 1
            elif err is not None:
                raise Violation("save failed", f"{what}: the disk said {fired or 'nothing wrong'}: {err if isinstance(err, tuple) else type(err).__name__ + ': ' + str(err)}")
            count["harmless"] += 1
            if err is None and content(fn) != want:
                raise Violation("file differs", f"{what}: the disk said {fired or 'nothing wrong'}, and the file is {diff(content(fn), want)}")
        d = th.first_difference(before, fl.look(o))
        if d:
            raise Violation("changed by a failed save", f"{what}: {d}")
        now = others(world, fn)
        for k in sorted(set(rest) | set(now)):
            if rest.get(k) != now.get(k):
                raise Violation("another file touched", f"{what} ({fired}): {k} {'appeared' if k not in rest else 'is gone' if k not in now else 'changed'}")
        # and again, now that the disk works
        if op.get("obstacle"):
            if os.path.isdir(fn):
                os.rmdir(fn)
            fn = world.path("out", f"f{j}.{how['form']}")
        err, _ = save_in(world, o, how, fn, [])
        count["retries"] += 1
        if err is not None:
            raise Violation("retry failed", f"{what} after {fired}: {type(err).__name__}: {err}")
        if content(fn) != want:
            raise Violation("retry differs", f"{what} after {fired or op.get('obstacle')}: {diff(content(fn), want)}")
        last = want
        trail.append([how["form"], sorted(fired), bool(crashed), op.get("obstacle"), len(want)])
    d = digest([trail, norm(repr(fl.look(o)), world.root)])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail],
            "nontrivial": bool(count["failing_saves"] or count["obstacles"] or count["crashes"]), "evals": max(1, count["retries"]),
            "sample": {"object": plan["object"]["kind"], "ops": [[o["how"]["form"], o.get("obstacle"), o.get("faults")] for o in plan["ops"] if "how" in o][:3]}}


def diff(a, b):
    if a is None:
        return "not there"
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{len(a)} bytes instead of {len(b)}, at byte {i} {a[i:i + 40]!r} instead of {b[i:i + 40]!r}"


def warm():
    from . import metagen as mg
    from . import tfio
    mg.warm()
    tfio.warm()
