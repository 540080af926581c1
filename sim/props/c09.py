"""C09: reading changes no file, saving changes exactly one."""
import os
import shutil
import tempfile

from sim.world import Violation, norm
from . import files as fl
from . import things as th
from .c07 import content, diff, settle
from .common import digest

ID = "C09"
TIMEOUT = 180
NAMES = ["a", "b", "My Site", "s.1", "x-2_y", "Ünï", "UPPER"]
JUNK = {"empty": b"", "short": b"something\n", "long": b"something else\n" * 20000, "nul": bytes(5000)}


def gen_damage(rng):
    r = rng.random()
    if r < 0.6:
        return None
    if r < 0.8:
        return {"cut": rng.random()}
    return {"faults": [{"at": rng.choice([0, 0, 1, 2, 4]), "match": rng.choice(["open", "read", "read", "any"]), "do": rng.choice(["EIO", "EACCES", "EINTR", "short"]), "sticky": rng.random() < 0.5}]}


def generate(rng, tier, idx):
    plan = {"objects": [fl.gen_object(rng) for _ in range(rng.randint(1, 3))], "shipped": [], "junk": [], "ops": [],
            "clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0, "cwd": rng.choice(["", "out", "work/deep"]), "listseed": rng.choice([0, rng.randrange(1 << 30)])}
    ship = fl.shipped()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        plan["shipped"].append([list(rng.choice(ship)), rng.choice(["out", "work", "out/more"])])
    for _ in range(rng.randint(0, 4)):
        plan["junk"].append([rng.choice(["out", "work", "", "tmp"]), rng.choice(["notes.txt", ".hidden", "a.tmp", "a_1.edi", "a.edi.bak", "a.edi~", "b.xml", "s.json", "a.avg", "a.edi"]), rng.choice(sorted(JUNK))])
    for _ in range(rng.randint(3, 8 if tier == "quick" else 20)):
        if rng.random() < 0.5:
            i = rng.randrange(len(plan["objects"]))
            h = fl.gen_how(rng, plan["objects"][i])
            if h["form"] in fl.TF_FORMS and rng.random() < 0.2:
                h["via"] = "default"
            if h["via"] in ("obj", "write") and rng.random() < 0.35:   # any name will do, not just the usual ending
                h["ending"] = rng.choice([".{}", ".{}.bak", ".{}.txt", "", ".dat", "_{}", ".x.{}"]) if h["form"] != "zmm" and (h["via"] == "obj" or h["form"] not in fl.TF_FORMS) else ".{}"
                h["upper"] = rng.random() < 0.5
            plan["ops"].append({"op": "save", "i": i, "how": h, "name": rng.choice(NAMES), "dir": rng.choice(["out", "out", "work"]),
                                "over": rng.choice(["", "", "empty", "short", "long", "nul", "other"]), "relative": rng.random() < 0.4})
            if rng.random() < 0.3:
                plan["ops"].append({"op": "change", "i": i, "do": th.gen_op(rng)})
        else:
            plan["ops"].append({"op": "read", "pick": rng.random(), "way": rng.randrange(2), "path": rng.random() < 0.5, "again": rng.random() < 0.3,
                                "damage": gen_damage(rng), "relative": rng.random() < 0.4})
    return plan


def picture(world):
    """Every file: content, modification time, permissions."""
    out = {}
    for d, ds, fs in os.walk(world.root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), world.root) + "/"] = ("folder",)
        for x in fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, world.root)] = (f.read(), st.st_mtime_ns, st.st_mode, st.st_nlink, os.path.islink(p))
    return out


def compare(a, b, but=None):
    for k in sorted(set(a) | set(b)):
        if k == but or a.get(k) == b.get(k):
            continue
        if k not in a:
            return f"{k} was created"
        if k not in b:
            return f"{k} was removed"
        return f"{k} was {'changed' if a[k][0] != b[k][0] else 'touched'}"
    return None


def execute(plan, world):
    for d in ("out", "out/more", "work", "work/deep", "tmp", "home"):
        os.makedirs(world.path(d), exist_ok=True)
    os.environ["HOME"] = world.path("home")
    os.environ["TMPDIR"] = world.path("tmp")
    tempfile.tempdir = None
    os.chdir(world.path(plan["cwd"]))
    objs = [fl.make(d) for d in plan["objects"]]
    known = []                  # (form, path) that can be read
    for (form, name), d in plan["shipped"]:
        to = world.path(d, os.path.basename(name))
        shutil.copyfile(os.path.join(fl.DATA, name), to)
        if to not in [p for _, p in known]:
            known.append((form, to))
    for d, name, what in plan["junk"]:
        if os.path.join(world.root, d, name) not in [p for _, p in known]:
            with open(world.path(d, name), "wb") as f:
                f.write(JUNK[what])
    count = {"saves": 0, "replaced": 0, "reads": 0, "failed_reads": 0, "damaged": 0}
    trail, made = [], {}
    for j, op in enumerate(plan["ops"]):
        if op["op"] == "change":
            if plan["objects"][op["i"]]["kind"] in ("tf", "exp"):
                before = picture(world)
                world.disk_on()
                try:
                    th.apply(objs[op["i"]], op["do"], world, f"e{j}")
                except Exception:
                    pass
                world.disk_off()
                plan["objects"][op["i"]]["changed"] = True
                if op["do"].get("do") not in ("save", "load", "fill"):
                    d = compare(before, picture(world))
                    if d:
                        raise Violation("a change touched a file", f"op {j} {op['do']}: {d}")
            continue
        if op["op"] == "save":
            o, how = objs[op["i"]], op["how"]
            end = how.get("ending", ".{}").format(how["form"])
            fn = world.path(op["dir"], op["name"] + (end.upper() if how.get("upper") else end))
            if how["via"] == "default":
                fn = world.path(op["dir"], f"{o.station}.{how['form']}")
            what = f"op {j}, saving as {how['form']} ({how['via']})"
            settle(o, how)
            back = world.path("..", "aside")
            had = os.path.lexists(fn)
            if had:
                os.rename(fn, back)
            ask = os.path.relpath(fn) if op["relative"] else fn
            r = world.process(fl.save, o, how, ask)
            want = content(fn)
            if os.path.lexists(fn):
                os.unlink(fn)
            if had:
                os.rename(back, fn)
            if r[0] != "ok":
                if plan["objects"][op["i"]].get("changed"):
                    continue
                raise Violation("save failed", f"{what}: {r[1:]}")
            if op["over"] in JUNK:
                with open(fn, "wb") as f:
                    f.write(JUNK[op["over"]])
            elif op["over"] == "other" and made:
                with open(fn, "wb") as f:
                    f.write(made[sorted(made)[-1]])
            count["replaced"] += os.path.lexists(fn)
            before = picture(world)
            world.disk_on(listseed=plan["listseed"])
            try:
                fl.save(o, how, ask)
                err = None
            except Exception as e:
                err = e
            world.disk_off()
            if err is not None:
                raise Violation("save failed", f"{what}: {type(err).__name__}: {err}")
            rel = os.path.relpath(fn, world.root)
            d = compare(before, picture(world), but=rel)
            if d:
                raise Violation("saving touched another file", f"{what} {rel}: {d}")
            if content(fn) != want:
                raise Violation("file differs", f"{what} over {op['over'] or ('an earlier one' if had else 'nothing')}: {diff(content(fn), want)}")
            made[rel] = want
            if (how["form"], fn) not in known and fn.endswith("." + how["form"]):
                known.append((how["form"], fn))
            count["saves"] += 1
            trail.append(["save", how["form"], how["via"], op["over"], had])
            continue
        if not known:
            continue
        form, fn = known[int(op["pick"] * len(known))]
        ways = fl.readers(form)
        way = ways[op["way"] % len(ways)]
        dm = op["damage"] or {}
        if "cut" in dm:
            data = content(fn)
            fn = fn[:-len(form)] + "cut." + form
            with open(fn, "wb") as f:
                f.write(data[:int(len(data) * dm["cut"])])
            count["damaged"] += 1
        before = picture(world)
        world.disk_on(dm.get("faults", []), listseed=plan["listseed"])
        got = None
        try:
            got = fl.read(form, os.path.relpath(fn) if op["relative"] else fn, way, op["path"])
        except Exception:
            count["failed_reads"] += 1
        world.disk_off()
        what = f"op {j}, reading {norm(fn, world.root)} ({way})"
        d = compare(before, picture(world))
        if d:
            raise Violation("reading changed a file", f"{what}: {d}")
        if got is not None:
            world.disk_on(listseed=plan["listseed"])
            try:
                fl.look(got)
                repr(got), str(got)
            except Exception:
                pass
            if op["again"]:
                try:
                    got.read() if hasattr(got, "read") else None
                except Exception:
                    pass
            world.disk_off()
            d = compare(before, picture(world))
            if d:
                raise Violation("looking at what was read changed a file", f"{what}: {d}")
        count["reads"] += 1
        trail.append(["read", form, way, sorted(dm), got is None])
    d = digest([trail, {k: digest(v[0].hex()) for k, v in picture(world).items() if len(v) > 1}])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail],
            "nontrivial": count["saves"] + count["reads"] > 0, "evals": count["saves"] + count["reads"],
            "sample": {"objects": [x["kind"] for x in plan["objects"]], "ops": trail[:6]}}


def warm():
    from . import c07
    c07.warm()
