"""C13, second part: a folder of MTML files is read the same in every order the disk lists them."""
import os
import random

from sim.world import Violation
from . import expgen as xg
from . import metagen as mg
from .common import fault_plan

COMPS = {"hx": "magnetic", "hy": "magnetic", "hz": "magnetic", "ex": "electric", "ey": "electric"}
FILTERS = ["zpk", "coefficient", "time delay", "fir"]


def generate(rng, tier):
    from .c13 import vary_times
    fl = {}
    for _ in range(rng.choice([1, 2, 4])):
        f = xg.gen_filter(rng, False, [n for n in xg.NAMES["filter"] if "dipole" not in n])
        if f["kind"] in FILTERS:
            fl[f["id"]] = f
    top = {"kind": "survey", "id": rng.choice(xg.NAMES["survey"]), "fields": xg.gen_fields(rng, "survey", 3), "filters": list(fl.values()), "stations": []}
    for sid in rng.sample(["MT001", "MT002", "CAS03", "NVx1", "mt4"], rng.choice([1, 2, 3, 4])):
        s = xg.gen_station(rng, [], False)
        s["id"], s["runs"] = sid, []
        for rid in rng.sample(["a", "b", "c", "001", "R1"], rng.choice([0, 1, 2, 3])):
            r = xg.gen_run(rng, [], False)
            r["id"], r["channels"] = rid, []
            for c in rng.sample(sorted(COMPS), rng.randint(0, 5)):
                app = rng.sample(sorted(fl), rng.randint(0, min(2, len(fl))))
                f = [x for x in xg.gen_fields(rng, COMPS[c], 2)]
                r["channels"].append({"kind": COMPS[c], "id": c, "fields": f, "times": None, "applied": [[a, rng.random() < 0.5] for a in app],
                                      "dipole": COMPS[c] == "electric" and rng.random() < 0.4})
            s["runs"].append(r)
        top["stations"].append(s)
    vary_times(rng, top)
    n = rng.choice([2, 3])
    return {"kind": "mtml", "top": top, "layout": rng.choice(["flat", "by station", "by level"]), "under": rng.random() < 0.3, "upper": rng.random() < 0.3,
            "listseed": [rng.randrange(1 << 20) for _ in range(n)], "order": [rng.randrange(1 << 20) for _ in range(n)],
            "faults": [fault_plan(rng, 12, allow_crash=False, errs=("EIO", "EMFILE")) if rng.random() < 0.4 else [] for _ in range(n)],
            "some": rng.random() < 0.3}


def write(plan, d, order):
    """The files, made in one of many orders."""
    from xml.etree import ElementTree as et
    from .c13 import make
    top = plan["top"]
    u = "_" if plan["under"] else ""
    out = {}

    def name(sid, level, fn):
        if plan["layout"] == "by station":
            return os.path.join(sid or "common", fn)
        return os.path.join(level, fn) if plan["layout"] == "by level" else fn
    sv = make(dict(top, stations=[]))
    out[name("", "survey", f"{u}survey.xml")] = sv.to_xml(string=True)
    root = et.Element("filters")
    for f in sv.filters.values():
        e = f.to_xml()
        e.tag = "filter"
        root.append(e)
    out[name("", "survey", f"{u}filters.xml")] = et.tostring(root, encoding="unicode")
    for s in top["stations"]:
        out[name(s["id"], "station", f"{s['id']}.xml")] = make(dict(s, runs=[])).to_xml(string=True)
        for r in s["runs"]:
            out[name(s["id"], "run", f"{s['id']}.{r['id']}.xml")] = make(dict(r, channels=[])).to_xml(string=True)
            for c in r["channels"]:
                o = make(c)
                if c["dipole"]:
                    o.dipole_length = 100.0
                    o.add_filter(name="electric dipole", applied=True, stage=9)
                t = c["kind"].capitalize() if plan["upper"] else c["kind"]
                n = c["id"].upper() if plan["upper"] else c["id"]
                out[name(s["id"], "channel", f"{s['id']}.{r['id']}.{t}.{n}.xml")] = o.to_xml(string=True)
    names = sorted(out)
    random.Random(order).shuffle(names)
    for n in names:
        fn = os.path.join(d, n)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w", encoding="utf-8") as f:
            f.write(out[n])
    return len(names)


def load(d, some):
    from pathlib import Path
    from mt_metadata.timeseries.tools import MT2StationXML
    from .c13 import facts, view
    m = MT2StationXML(Path(d))
    e = m.make_experiment(stations=some)
    s = e.surveys[0]
    return sorted(m.stations), facts(s), view(s)


def run(plan, world, count, trail):
    from .c13 import agree, same, spans
    top = plan["top"]
    some = None
    if plan["some"] and top["stations"]:
        some = [top["stations"][0]["id"]]
    t = dict(top, stations=[s for s in top["stations"] if some is None or s["id"] in some])
    want = spans(t)
    extra = any(c["dipole"] for s in t["stations"] for r in s["runs"] for c in r["channels"])
    if extra:
        want[()]["filters"] = sorted(want[()]["filters"] + ["electric_dipole_100.000"])
    first = None
    for j, ls in enumerate(plan["listseed"]):
        what = f"listing {j}"
        d = world.path(f"in{j}")
        n = write(plan, d, plan["order"][j])
        fl = plan["faults"][j]
        r = world.process(load, d, some, faults=fl, listseed=ls)
        if fl and r[0] == "raise":
            count["failed_reads"] += 1
            r = world.process(load, d, some, listseed=ls)
        if r[0] != "ok":
            raise Violation("reading failed", f"{what}: {r[1:]}")
        st, got, v = r[1]
        if st != sorted(s["id"] for s in top["stations"]):
            raise Violation("wrong members", f"{what}: lists stations {st}")
        count["delivered"] += n
        trail.append(["read", n, bool(fl)])
        agree(want, got, what, count)
        if first is not None:
            same(first, v, what)
        first = first or v
