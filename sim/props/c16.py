"""C16: an experiment survives StationXML."""
import os
import random

import numpy as np

from sim.world import Violation, norm
from . import expgen as xg
from . import metagen as mg
from . import things as th
from .c07 import content
from .common import digest, fault_plan

ID = "C16"
TIMEOUT = 300
RATES = [1.0, 8.0, 4.0, 16.0, 150.0, 256.0, 4096.0, 0.1, 24000.0]
COMPS = ["ex", "ey", "hx", "hy", "hz"]
SENSORS = [["fluxgate", "NIMS", "1305-06"], ["BF-4", "EMI", "9810"], ["MFS-06", "Metronix", "s6"]]
T0 = 1_500_000_000


def gen_filter(rng, name):
    k = rng.choice(["coefficient", "coefficient", "zpk", "time delay", "fir", "frequency response table"])
    f = {"kind": k, "id": name, "units_in": None, "units_out": None, "gain": rng.choice([1.0, 0.5, 1000.0, 2.44e-7, 1.234567890123e-3])}
    if k == "zpk":
        f["poles"] = rng.choice([[[-1.0, 2.0], [-1.0, -2.0]], [[-3.0, 0.0]], [[-6.283185, 10.882477], [-6.283185, -10.882477], [-12.566371, 0.0]]])
        f["zeros"] = rng.choice([[], [[0.0, 0.0]], [[0.0, 0.0], [-2.0, 0.5]]])
        f["norm"] = rng.choice([1.0, 1984.31439386406, 0.25])
    elif k == "time delay":
        f["delay"] = rng.choice([-0.285, 0.0125, 1.5])
    elif k == "fir":
        f["coefficients"] = rng.choice([[0.25, 0.5, 0.25], [0.125] * 8, [1.0, -0.5, 0.25, 0.0625]])
        f["symmetry"] = "NONE"
        # the library puts the rate behind the name of a filter that decimates
        f["decimation"] = [rng.choice([64.0, 1024.0]), rng.choice([2.0, 4.0])]
        f["id"] = f"{name}_{f['decimation'][0]}"
    elif k == "frequency response table":
        n = rng.choice([2, 5, 12])
        r = random.Random(rng.randrange(1 << 30))
        f["frequencies"] = [round(0.001 * 3.0 ** i, 6) for i in range(n)]
        f["amplitudes"] = [round(r.uniform(0.1, 5), 6) for _ in range(n)]
        f["phases"] = [round(r.uniform(-3, 3), 6) for _ in range(n)]
    return f


CHAIN = {"e": ["milliVolt per kilometer", "Volt per meter", "Volt", "Volt", "digital counts"],
         "h": ["nanoTesla", "Tesla", "Volt", "Volt", "digital counts"]}


def gen_experiment(rng, big):
    ex = {"surveys": []}
    used = 0
    codes = rng.sample(["ZU", "EM", "8P", "XY", "4Q", "ZZ"], rng.choice([1, 1, 1, 2, 3]))
    for c in codes:
        sv = {"network": c, "id": rng.choice(["", "MT "]) + c.lower() + str(rng.randrange(100)), "filters": [], "stations": [],
              "start": T0, "project": rng.choice([None, "earthscope", "USMTArray"]), "country": rng.choice([None, ["USA"], ["USA", "Canada"]]),
              "geographic_name": rng.choice([None, "Yukon", "CONUS South"]), "author": rng.choice([None, "J Peacock"])}
        chains = {"e": [], "h": []}
        for t in "eh":
            for _ in range(rng.choice([0, 1, 2])):
                n = rng.randint(1, 4)
                seq = []
                for i in range(n):
                    f = gen_filter(rng, f"{rng.choice(['filter', 'gain', 'low pass', 'v per m', 'a2d'])}_{used}")
                    used += 1
                    f["units_in"], f["units_out"] = CHAIN[t][i], CHAIN[t][i + 1]
                    sv["filters"].append(f)
                    seq.append(f["id"])
                chains[t].append(seq)
            chains[t].append([])
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            sid = f"{rng.choice(['MT', 'CAS', 'NV'])}{i:02d}"
            st = {"id": sid, "lat": round(rng.uniform(-85, 85), rng.choice([3, 6])), "lon": round(rng.uniform(-179, 179), rng.choice([3, 6])),
                  "elev": round(rng.uniform(-100, 4000), 2), "geographic_name": rng.choice([None, "Whitehorse, YK", "Elko"]), "runs": [],
                  "declination": rng.choice([0.0, -12.5, 13.1])}
            t = T0 + rng.randrange(10**8)
            first = {}
            for j in range(rng.choice([0, 1, 1, 2, 3, 4 if not big else 8])):
                dur = rng.randrange(60, 10**6)
                run = {"id": f"{sid}{'abcdefgh'[j]}", "start": t, "end": t + dur, "rate": rng.choice(RATES) if rng.random() < 0.4 or not st["runs"] else st["runs"][-1]["rate"],
                       "channels": [], "logger": [rng.choice([None, "Barry Narod", "Zonge"]), rng.choice([None, "NIMS", "ZEN"]), rng.choice([None, "2612-09"])]}
                t += dur + rng.choice([0, 60, 86400])
                for c in rng.sample(COMPS, rng.randint(0, 5)):
                    if c in first and rng.random() < 0.5:
                        ch = dict(first[c])
                        if rng.random() < 0.6:      # one thing differs from the run before
                            w = rng.choice(["lat", "azimuth", "sensor", "filters", "tilt"])
                            new = gen_channel(rng, c, st, chains)
                            ch[w] = new[w]
                            if w == "lat":
                                ch["lat"] = ch["lat"] + rng.choice([0.01, -0.5]) if abs(ch["lat"]) < 80 else ch["lat"]
                    else:
                        ch = gen_channel(rng, c, st, chains)
                    first[c] = ch
                    run["channels"].append(ch)
                st["runs"].append(run)
            sv["stations"].append(st)
        ex["surveys"].append(sv)
    return ex


def gen_channel(rng, c, st, chains):
    return {"id": c, "lat": st["lat"], "lon": st["lon"], "elev": st["elev"], "azimuth": rng.choice([0.0, 90.0, 12.5, 102.75, 359.5, 180.0]),
            "tilt": rng.choice([0.0, 0.0, 90.0, 1.25, -90.0, -1.25]) if c[0] == "h" else 0.0, "sensor": rng.choice(SENSORS), "length": rng.choice([100.0, 92.5, 55.0]),
            "electrodes": [f"e{rng.randrange(100)}", f"e{rng.randrange(100)}"], "filters": rng.choice(chains[c[0]])}


def make_filter(f):
    o = xg.cls(f["kind"])()
    o.name, o.units_in, o.units_out = f["id"], f["units_in"], f["units_out"]
    if f["kind"] != "time delay":
        o.gain = f["gain"]
    if f["kind"] == "zpk":
        o.poles = np.array([complex(*x) for x in f["poles"]])
        o.zeros = np.array([complex(*x) for x in f["zeros"]], dtype=complex)
        o.normalization_factor = f["norm"]
    elif f["kind"] == "time delay":
        o.delay = f["delay"]
    elif f["kind"] == "fir":
        o.coefficients = np.array(f["coefficients"])
        o.symmetry = f["symmetry"]
        o.decimation_input_sample_rate, o.decimation_factor = f["decimation"]
    elif f["kind"] == "frequency response table":
        o.frequencies, o.amplitudes, o.phases = np.array(f["frequencies"]), np.array(f["amplitudes"]), np.array(f["phases"])
    return o


def iso(t):
    from .tfgen import iso as f
    return f(t)


def build(ex):
    from mt_metadata.timeseries import Electric, Experiment, Magnetic, Run, Station, Survey
    e = Experiment()
    for d in ex["surveys"]:
        s = Survey(id=d["id"])
        s.fdsn.network = d["network"]
        for k in ("project", "country", "geographic_name"):
            if d[k]:
                setattr(s, k, d[k])
        if d["author"]:
            s.acquired_by.author = d["author"]
        for f in d["filters"]:
            o = make_filter(f)
            s.filters[o.name] = o
        for d2 in d["stations"]:
            t = Station(id=d2["id"])
            t.fdsn.id = d2["id"]
            t.location.latitude, t.location.longitude, t.location.elevation = d2["lat"], d2["lon"], d2["elev"]
            t.location.declination.value = d2["declination"]
            if d2["geographic_name"]:
                t.geographic_name = d2["geographic_name"]
            for d3 in d2["runs"]:
                r = Run(id=d3["id"], sample_rate=d3["rate"])
                r.data_logger.manufacturer, r.data_logger.model, r.data_logger.id = d3["logger"]
                r.time_period.start, r.time_period.end = iso(d3["start"]), iso(d3["end"])
                for c in d3["channels"]:
                    ch = (Electric if c["id"][0] == "e" else Magnetic)(component=c["id"], sample_rate=d3["rate"])
                    ch.measurement_azimuth, ch.measurement_tilt = c["azimuth"], c["tilt"]
                    ch.time_period.start, ch.time_period.end = iso(d3["start"]), iso(d3["end"])
                    if c["id"][0] == "e":
                        ch.positive.latitude, ch.positive.longitude, ch.positive.elevation = c["lat"], c["lon"], c["elev"]
                        ch.dipole_length = c["length"]
                        ch.positive.id, ch.negative.id = c["electrodes"]
                    else:
                        ch.location.latitude, ch.location.longitude, ch.location.elevation = c["lat"], c["lon"], c["elev"]
                        ch.sensor.model, ch.sensor.manufacturer, ch.sensor.id = c["sensor"]
                        ch.sensor.type = "magnetometer"
                    for i, n in enumerate(c["filters"]):
                        ch.add_filter(name=n, applied=True, stage=i + 1)
                    r.add_channel(ch)
                t.add_run(r)
            t.update_time_period()
            s.add_station(t)
        e.add_survey(s)
    return e


def facts(e):
    """What the property speaks about: {path: values}."""
    out = {}
    for s in e.surveys:
        out[(s.id,)] = {"network": s.fdsn.network}
        for t in s.stations:
            out[(s.id, t.id)] = {"latitude": t.location.latitude, "longitude": t.location.longitude, "elevation": t.location.elevation, "runs": sorted(t.runs.keys())}
            for r in t.runs:
                out[(s.id, t.id, r.id)] = {"sample_rate": r.sample_rate if len(r.channels) else None, "start": str(r.time_period.start), "end": str(r.time_period.end),
                                           "channels": sorted(r.channels.keys())}
                for c in r.channels:
                    p = c.positive if c.component[0] == "e" else c.location
                    v = {"class": type(c).__name__, "latitude": p.latitude, "longitude": p.longitude, "elevation": p.elevation,
                         "azimuth": c.measurement_azimuth % 360, "tilt": c.measurement_tilt % 360, "sample_rate": c.sample_rate,
                         "start": str(c.time_period.start), "end": str(c.time_period.end), "filters": [f.name for f in sorted(c.filters, key=lambda f: f.stage or 0)]}
                    if c.component[0] == "e":
                        v["dipole_length"] = c.dipole_length
                        v["electrodes"] = [c.positive.id, c.negative.id]
                    else:
                        v["sensor"] = c.sensor.id
                    for n in v["filters"]:
                        out[(s.id, t.id, r.id, c.component, n)] = filter_facts(s.filters[n] if n in s.filters.keys() else None, n)
                    out[(s.id, t.id, r.id, c.component)] = v
    return out


def filter_facts(f, n):
    if f is None:
        return {"filter": "not there"}
    out = {"class": type(f).__name__, "name": f.name, "units_in": str(f.units_in), "units_out": str(f.units_out)}
    for k in ("gain", "delay", "normalization_factor", "decimation_factor", "decimation_input_sample_rate"):
        if hasattr(f, k):
            out[k] = getattr(f, k)
    for k in ("poles", "zeros", "coefficients", "frequencies", "amplitudes", "phases"):
        if hasattr(f, k):
            v = getattr(f, k)
            out[k] = [] if v is None else [complex(x) for x in np.ravel(np.asarray(v, dtype=complex))]
    return out


def close(a, b):
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex, int)):
        return abs(a - b) <= 1e-9 * max(1e-30, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def difference(a, b):
    for k in list(a) + [k for k in b if k not in a]:
        at = "/".join(k)
        if k not in b:
            return "member lost", f"{at} is gone"
        if k not in a:
            return "member appeared", f"{at} appeared"
        for n in list(a[k]) + [n for n in b[k] if n not in a[k]]:
            if n not in b[k] or n not in a[k] or not close(a[k][n], b[k][n]):
                return "value differs", f"{at} {n}: {a[k].get(n, '<none>')!r} became {b[k].get(n, '<none>')!r}"
    return None


def generate(rng, tier, idx):
    plan = {"exp": gen_experiment(rng, tier != "quick"), "ops": [], "clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0}
    for _ in range(rng.randint(1, 4)):
        plan["ops"].append({"faults": fault_plan(rng) if rng.random() < 0.3 else [], "tear": rng.randrange(1 << 30), "path": rng.random() < 0.5,
                            "via": rng.choice(["file", "file", "file", "inventory", "mtxml"]), "same": rng.random() < 0.4})
    return plan


def save(o, fn, path):
    from pathlib import Path
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
    XMLInventoryMTExperiment().mt_to_xml(o, stationxml_fn=Path(fn) if path else fn)


def load(fn, path):
    from pathlib import Path
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
    e = XMLInventoryMTExperiment().xml_to_mt(stationxml_fn=Path(fn) if path else fn)
    return e, facts(e)


def load_facts(fn, path):
    return load(fn, path)[1]


def execute(plan, world):
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
    o = build(plan["exp"])
    want = facts(o)
    os.makedirs(world.path("out"))
    count = {"conversions": 0, "failed_saves": 0, "crashes": 0, "members": len(want)}
    trail = []
    cur = o
    for j, op in enumerate(plan["ops"]):
        what = f"conversion {j} ({op['via']})"
        before = th.deep(cur)
        try:
            if op["via"] == "inventory":
                x = XMLInventoryMTExperiment()
                back = x.xml_to_mt(inventory_object=x.mt_to_xml(cur))
                got = facts(back)
            elif op["via"] == "mtxml":
                # through the library's own XML first
                m = world.path("out", f"m{j}.xml")
                cur.to_xml(fn=m)
                before = th.deep(cur)
                fn = world.path("out", f"s{j}.xml")
                XMLInventoryMTExperiment().mt_to_xml(None, mt_fn=m, stationxml_fn=fn)
                back, got = load(fn, op["path"])
            else:
                fn = world.path("out", "same.xml" if op["same"] else f"s{j}.xml")
                if op["faults"]:
                    r = world.process(save, cur, fn, op["path"], faults=op["faults"], tear=op["tear"])
                    count["crashes"] += r[0] == "crash"
                    count["failed_saves"] += r[0] == "raise"
                r = world.process(save, cur, fn, op["path"])
                if r[0] != "ok":
                    raise Violation("conversion failed", f"{what}: {r[1:]}")
                r = world.process(load_facts, fn, op["path"])
                if r[0] != "ok":
                    raise Violation("conversion failed", f"{what}: reading: {r[1:]}")
                got = r[1]
                back, here = load(fn, op["path"])
                d = difference(here, got)
                if d:
                    raise Violation("depends on the process", f"{what}: {d[1]}")
        except Violation:
            raise
        except Exception as e:
            raise Violation("conversion failed", f"{what}: {type(e).__name__}: {e}")
        d = difference(want, got)
        if d:
            raise Violation(d[0], f"{what}: {d[1]}")
        d = th.first_difference(before, th.deep(cur))
        if d:
            raise Violation("saving changed the experiment", f"{what}: {d}")
        count["conversions"] += 1
        trail.append([op["via"], len(got), bool(op["faults"])])
        cur = back
    d = digest([trail, sorted(["/".join(k) for k in want])])
    return {"count": count, "digest": d, "state": d, "states": [digest([t, len(plan["exp"]["surveys"])]) for t in trail], "nontrivial": len(want) > 2, "evals": count["conversions"],
            "sample": {"members": len(want), "ops": trail}}


def warm():
    from . import c07
    c07.warm()
