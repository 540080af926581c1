"""C19: processing configurations, Fourier coefficient sets and the filters of a channel agree with their history."""
import datetime
import random

import numpy as np

from sim.world import Violation, norm
from .common import digest, fault_plan

ID = "C19"
TIMEOUT = 180
LEVELS = ["0", "1", "2", "3", "10", "a", "b"]
COMPS = ["ex", "ey", "hx", "hy", "hz", "hx_rr"]
NAMES = ["a", "ab", "delay_1", "zpk 2", "coil", "10", "count per volt"]
ALIAS = {"coil": "Coil", "count per volt": "Count/Volt"}
ERR = (TypeError, ValueError, KeyError, IndexError, AttributeError)
EPOCH = "1980-01-01T00:00:00+00:00"
KINDS = {"filters": ["add"] * 6 + ["object", "object", "remove", "remove", "get", "assign", "reject", "reload"],
         "fc": ["level"] * 5 + ["channel"] * 4 + ["remove level", "remove channel", "get", "bulk", "names", "merge", "reject", "reload"],
         "proc": ["level"] * 5 + ["band"] * 4 + ["set", "drop", "remote", "remote", "run", "run", "get", "assign bands", "frame", "reject", "reload"]}


def generate(rng, tier, idx):
    what = rng.choice(["filters", "fc", "fc", "proc", "proc"])
    ops = []
    for _ in range(rng.randint(3, 10 if tier == "quick" else 40)):
        do = rng.choice(KINDS[what])
        op = {"do": do, "r": rng.randrange(1 << 30)}
        if do == "reload":
            op.update(form=rng.choice(["dict", "json", "file", "file", "copy", "xml"]), faults=fault_plan(rng, 6) if rng.random() < 0.5 else [],
                      tear=rng.randrange(1 << 30), nested=rng.random() < 0.5, required=rng.random() < 0.5)
        ops.append(op)
    if not any(o["do"] == "reload" for o in ops):
        ops.append({"do": "reload", "r": 1, "form": "file", "faults": [], "tear": 1, "nested": False, "required": False})
    return {"what": what, "ops": ops, "clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0}


def iso(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S+00:00")


def refused(what, f):
    try:
        f()
    except ERR:
        return
    except Exception as e:
        raise Violation("rejected for the wrong reason", f"{what}: {type(e).__name__}: {str(e)[:200]}")
    raise Violation("not rejected", what)


def expect(what, got, want):
    if got != want:
        raise Violation("wrong members" if "member" in what else "differs from its history", f"{what}: has {got!r}, should have {want!r}")


# ---- the filters of a channel -----------------------------------------------
class Filters:
    def __init__(self, rng):
        from mt_metadata.timeseries import Auxiliary, Electric, Magnetic
        c = rng.choice([Electric, Magnetic, Auxiliary])
        self.o = c(component={"Electric": "ex", "Magnetic": "hy", "Auxiliary": "temperature"}[c.__name__])
        self.m = []          # [name, applied, stage, comment]
        self.sorted = True

    def view(self, o=None):
        o = o or self.o
        return [[f.name, f.applied, f.stage, f.comments.value or None] for f in o.filters]

    def check(self, what, o=None):
        o = o or self.o
        got = self.view(o)
        expect(f"{what}: filters of the channel (members)", got, self.m)
        expect(f"{what}: filter names (members)", list(o.filter_names), [x[0] for x in self.m])
        for x in self.m:
            first = next(y for y in self.m if y[0] == x[0])
            f = o.get_filter(x[0])
            if f is None or [f.name, f.applied, f.stage] != first[:3]:
                raise Violation("not found", f"{what}: filter {x[0]!r}: {f and [f.name, f.applied, f.stage]}, should be {first}")
        for n in set(NAMES) - {x[0] for x in self.m}:
            if o.get_filter(n) is not None:
                raise Violation("member appeared", f"{what}: filter {n!r}")

    def step(self, op, rng, what):
        from mt_metadata.common import Comment
        from mt_metadata.timeseries import AppliedFilter
        do, o, m = op["do"], self.o, self.m
        name, applied = rng.choice(NAMES), rng.random() < 0.5
        stage = rng.choice([None, None, 1, 2, 5])
        if do == "add":
            c = rng.choice([None, None, "text", "obj"])
            kw = {} if stage is None and rng.random() < 0.5 else {"stage": stage}
            if c:
                kw["comments"] = "a text" if c == "text" else Comment(value="a text")
            if applied is False or rng.random() < 0.5:
                kw["applied"] = applied
            else:
                applied = True
            o.add_filter(name=ALIAS.get(name, name) if rng.random() < 0.3 else name, **kw)
            if name not in [x[0] for x in m]:
                m.append([name, applied, stage if stage is not None else len(m) + 1, "a text" if c else None])
                m.sort(key=lambda x: x[2] if x[2] is not None else 0)
            return
        if do == "object":
            f = AppliedFilter(name=ALIAS.get(name, name) if rng.random() < 0.3 else name, applied=applied, stage=stage)
            o.add_filter(applied_filter=f) if rng.random() < 0.5 else o.add_filter(f)
            if name not in [x[0] for x in m]:
                m.append([name, applied, stage if stage is not None else len(m) + 1, None])
                m.sort(key=lambda x: x[2])
            return
        if do == "remove":
            reset = rng.random() < 0.7
            o.remove_filter(name) if reset and rng.random() < 0.5 else o.remove_filter(name, reset_stages=reset)
            m[:] = [x for x in m if x[0] != name]
            if reset:
                for i, x in enumerate(m):
                    x[2] = i + 1
            return
        if do == "assign":
            ns = rng.sample(NAMES, rng.randint(0, 3))
            v = [[n, rng.random() < 0.5, i + 1, None] for i, n in enumerate(ns)]
            o.filters = [AppliedFilter(name=a, applied=b, stage=c) if rng.random() < 0.5 else {"name": a, "applied": b, "stage": c} for a, b, c, _ in v]
            m[:] = v
            return
        if do == "reject":
            which = rng.choice(["name", "nothing", "object", "text", "stage", "assign"])
            refused(f"{what}: {which}", {
                "name": lambda: o.add_filter(name=5), "nothing": lambda: o.add_filter(), "object": lambda: o.add_filter(applied_filter={"name": "x"}),
                "text": lambda: o.add_filter(applied_filter="x"), "stage": lambda: o.add_filter(name="fresh", stage="third"),
                "assign": lambda: setattr(o, "filters", [{"name": "x", "stage": "third"}])}[which])

    def fresh(self):
        return type(self.o)(component=self.o.component)


# ---- Fourier coefficient sets ------------------------------------------------
def span(members, own=(EPOCH, EPOCH)):
    s, e = own
    starts = [x[0] for x in members if x[0] != EPOCH]
    ends = [x[1] for x in members if x[0] != EPOCH]
    if starts and (s == EPOCH or s > min(starts)):
        s = min(starts)
    if ends and (e == EPOCH or e < max(ends)):
        e = max(ends)
    return [s, e]


class FCs:
    def __init__(self, rng):
        from mt_metadata.processing.fourier_coefficients.fc import FC
        self.o = FC(id="processing_1")
        self.m = {}            # level -> {"factor", "channels": {component: {...}}}
        self.span = [EPOCH, EPOCH]

    def channel(self, rng):
        from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
        c = rng.choice(COMPS)
        d = {"frequency_min": rng.choice([0.25, 1.5, 1e-4]), "frequency_max": rng.choice([2.5, 10.0]), "units": rng.choice(["milliVolt", "nanoTesla"]), "span": [EPOCH, EPOCH]}
        o = FCChannel(component=c, frequency_min=d["frequency_min"], frequency_max=d["frequency_max"], units=d["units"])
        if rng.random() < 0.7:
            t = rng.randrange(400_000_000, 1_700_000_000)
            d["span"] = [iso(t), iso(t + rng.randrange(1, 10**7))]
            o.time_period.start, o.time_period.end = d["span"]
        return c, d, o

    def level(self, rng):
        from mt_metadata.processing.fourier_coefficients.decimation import Decimation
        lid = rng.choice(LEVELS)
        f = rng.choice([1, 2, 4, 8])
        m = {"factor": float(f), "channels": {}, "span": [EPOCH, EPOCH]}
        chs = {}
        for _ in range(rng.choice([0, 1, 2, 3])):
            c, d, ch = self.channel(rng)
            if c not in chs:
                chs[c] = ch
                self.put(m, c, d)
        listed = list(chs) if rng.random() < 0.5 else []
        o = Decimation(id=lid, channels=list(chs.values()) if rng.random() < 0.5 else chs, channels_estimated=listed)
        o.time_series_decimation.factor = float(f)
        o.update_time_period()
        return lid, m, o

    @staticmethod
    def put(m, c, d):
        if c in m["channels"]:
            old = m["channels"][c]
            sp = [d["span"][i] if d["span"][i] != EPOCH else old["span"][i] for i in (0, 1)]
            m["channels"][c] = dict(d, span=sp)
        else:
            m["channels"][c] = d
        m["span"] = span([x["span"] for x in m["channels"].values()], m["span"])

    def view(self, o=None):
        o = o or self.o
        return {k: {"factor": float(v.time_series_decimation.factor), "span": [str(v.time_period.start), str(v.time_period.end)],
                    "channels": {c: {"frequency_min": x.frequency_min, "frequency_max": x.frequency_max, "units": str(x.units), "span": [str(x.time_period.start), str(x.time_period.end)]}
                                 for c, x in v.channels.items()}} for k, v in o.levels.items()}

    def check(self, what, o=None):
        o = o or self.o
        got = self.view(o)
        expect(f"{what}: levels (members)", list(got), list(self.m))
        for k, m in self.m.items():
            g = got[k]
            at = f"{what}: level {k}"
            expect(f"{at}: channels (members)", list(g["channels"]), list(m["channels"]))
            expect(f"{at}: values", g, m)
            lv = o.levels[k]
            expect(f"{at}: channels estimated (members)", sorted(lv.channels_estimated), sorted(m["channels"]))
            expect(f"{at}: number of channels (members)", lv.n_channels, len(m["channels"]))
            for c in COMPS:
                expect(f"{at}: has {c} (members)", lv.has_channel(c), c in m["channels"])
                x = lv.get_channel(c)
                if (x is None) != (c not in m["channels"]) or x is not None and x is not lv.channels[c]:
                    raise Violation("not found", f"{at}: channel {c} is {x is not None and x.component}")
        expect(f"{what}: names of levels (members)", sorted(o.decimation_levels), sorted(self.m))
        expect(f"{what}: number of levels (members)", o.n_decimation_levels, len(self.m))
        for i, k in enumerate(list(self.m)):
            expect(f"{what}: index of {k} (members)", o.decimation_level_index(k), i)
            if o.get_decimation_level(k) is not o.levels[k] or o.levels[i] is not o.levels[k]:
                raise Violation("not found", f"{what}: level {k}")
        for k in set(LEVELS) - set(self.m):
            expect(f"{what}: has {k} (members)", o.has_decimation_level(k), False)
            expect(f"{what}: {k} (members)", [o.get_decimation_level(k), o.decimation_level_index(k)], [None, None])
        expect(f"{what}: time span", [str(o.time_period.start), str(o.time_period.end)], self.span)

    def grow(self):
        self.span = span([x["span"] for x in self.m.values()], self.span)

    def step(self, op, rng, what):
        do, o, m = op["do"], self.o, self.m
        if do == "level":
            lid, lm, lo = self.level(rng)
            o.add_decimation_level(lo)
            if lid in m:
                m[lid]["factor"] = lm["factor"] if lm["factor"] else m[lid]["factor"]
                sp = m[lid]["span"]
                m[lid]["span"] = [lm["span"][i] if lm["span"][i] != EPOCH else sp[i] for i in (0, 1)]
                for c, d in lm["channels"].items():
                    self.put(m[lid], c, d)
            else:
                m[lid] = lm
            self.grow()
        elif do == "channel" and m:
            k = rng.choice(list(m))
            c, d, ch = self.channel(rng)
            lv = o.levels[k]
            if c in m[k]["channels"]:
                lv.add_channel(ch)
            else:       # add_channel leaves the list of estimated channels to the caller
                lv.add_channel(ch)
                lv.channels_estimated.append(c)
            self.put(m[k], c, d)
        elif do == "remove level":
            k = rng.choice(LEVELS)
            o.remove_decimation_level(k)
            m.pop(k, None)
            self.grow()
        elif do == "remove channel" and m:
            k, c = rng.choice(list(m)), rng.choice(COMPS)
            o.levels[k].remove_channel(c)
            m[k]["channels"].pop(c, None)
            m[k]["span"] = span([x["span"] for x in m[k]["channels"].values()], m[k]["span"])
        elif do == "merge" and m:
            k = rng.choice(list(m))
            lid, lm, lo = self.level(rng)
            o.levels[k].add(lo)
            o.levels[k].channels_estimated.extend([c for c in lm["channels"] if c not in o.levels[k].channels_estimated])
            o.levels[k].update_time_period()
            for c, d in lm["channels"].items():
                m[k]["channels"][c] = d
            m[k]["span"] = span([x["span"] for x in m[k]["channels"].values()], m[k]["span"])
        elif do == "bulk":
            new, src = {}, []
            for _ in range(rng.randint(0, 3)):
                lid, lm, lo = self.level(rng)
                if lid in new:
                    continue
                new[lid] = lm
                src.append(lo)
            gone = [k for k in o.decimation_levels if k not in new]
            o.levels = src if rng.random() < 0.6 else {n: s for n, s in zip(new, src)}
            self.m = new
            for k in gone:       # names that were listed stay listed, as empty levels
                self.m[k] = {"factor": 1.0, "channels": {}, "span": [EPOCH, EPOCH]}
        elif do == "names":
            extra = rng.sample(LEVELS, rng.randint(0, 2))
            o.decimation_levels = list(dict.fromkeys(list(m) + extra))
            for k in extra:
                m.setdefault(k, {"factor": 1.0, "channels": {}, "span": [EPOCH, EPOCH]})
        elif do == "reject":
            which = rng.choice(["level", "bulk", "bulk type", "channel", "merge", "names"])
            k = next(iter(m), None)
            if k is None and which in ("channel", "merge"):
                return
            refused(f"{what}: {which}", {
                "level": lambda: o.add_decimation_level(rng.choice([5, "x", None, {"id": "7"}])),
                "bulk": lambda: setattr(o, "levels", [self.level(rng)[2], 5]), "bulk type": lambda: setattr(o, "levels", 5),
                "channel": lambda: o.levels[k].add_channel(rng.choice([5, "ex", None])), "merge": lambda: o.levels[k].add(rng.choice([5, None])),
                "names": lambda: setattr(o, "decimation_levels", 5)}[which])

    def fresh(self):
        from mt_metadata.processing.fourier_coefficients.fc import FC
        return FC()

    def saved(self, rng):
        """A set does not save its levels nor a level its channels (they are saved one by one): what it says itself and the names of its members."""
        from mt_metadata.processing.fourier_coefficients.decimation import Decimation
        if self.m and rng.random() < 0.6:
            return self.o.levels[rng.choice(list(self.m))], Decimation, self.own_level
        return self.o, self.fresh, self.own

    @staticmethod
    def own(o):
        return {"id": o.id, "span": [str(o.time_period.start), str(o.time_period.end)], "levels": sorted(o.decimation_levels), "objects": sorted(o.levels.keys())}

    @staticmethod
    def own_level(lv):
        return {"id": lv.id, "factor": float(lv.time_series_decimation.factor), "span": [str(lv.time_period.start), str(lv.time_period.end)], "channels": sorted(lv.channels_estimated),
                "objects": sorted(lv.channels.keys()), "window": lv.stft.window.num_samples}


# ---- processing configurations -----------------------------------------------
class Proc:
    def __init__(self, rng):
        from mt_metadata.processing.aurora.processing import Processing
        self.o = Processing(id="config")
        self.m = {"levels": [], "local": {"id": "", "runs": []}, "remote": []}

    def band(self, rng, level):
        from mt_metadata.common.band import Band
        i = rng.randrange(1, 200)
        d = {"index_min": i, "index_max": i + rng.randrange(0, 20), "frequency_min": i / 1000, "frequency_max": (i + 20) / 1000}
        return d, Band(decimation_level=level, **d)

    def level(self, rng, n=None):
        from mt_metadata.processing.aurora.decimation_level import DecimationLevel
        d = {"level": n if n is not None else rng.randrange(8), "factor": float(rng.choice([1, 2, 4])), "sample_rate": rng.choice([1.0, 0.25, 150.0]), "window": rng.choice([128, 256]),
             "in": ["hx", "hy"], "out": ["ex", "ey", "hz"], "ref": [], "bands": []}
        o = DecimationLevel()
        o.decimation.level, o.decimation.factor, o.decimation.sample_rate = d["level"], d["factor"], d["sample_rate"]
        o.stft.window.num_samples = d["window"]
        o.input_channels, o.output_channels, o.reference_channels = list(d["in"]), list(d["out"]), []
        for _ in range(rng.choice([0, 1, 2, 4])):
            b, bo = self.band(rng, d["level"])
            d["bands"].append(b)
            o.add_band(bo)
        return d, o

    def run(self, rng):
        from mt_metadata.common import TimePeriod
        from mt_metadata.processing.aurora.run import Run
        d = {"id": rng.choice(["001", "002", "a", "b"]), "sample_rate": rng.choice([1.0, 8.0]), "in": ["hx", "hy"], "out": rng.choice([["ex", "ey"], ["ex", "ey", "hz"]]), "scale": {}, "spans": []}
        t = rng.randrange(10**9)
        for _ in range(rng.choice([1, 1, 2, 3])):
            e = t + rng.randrange(1, 10**6)
            d["spans"].append([iso(t), iso(e)])
            t = e + rng.randrange(1, 1000)
        o = Run(id=d["id"], sample_rate=d["sample_rate"], input_channels=list(d["in"]), output_channels=list(d["out"]),
                time_periods=[TimePeriod(start=a, end=b) for a, b in d["spans"]])
        d["scale"] = {c: rng.choice([1.0, 2.5, -10.0]) for c in d["in"] + d["out"] if rng.random() < 0.4}
        o.set_channel_scale_factors(d["scale"])
        for c in d["in"] + d["out"]:
            d["scale"].setdefault(c, 1.0)
        return d, o

    @staticmethod
    def view_run(r):
        return {"id": r.id, "sample_rate": r.sample_rate, "in": list(r.input_channel_names), "out": list(r.output_channel_names), "scale": dict(r.channel_scale_factors),
                "spans": [[str(t.start), str(t.end)] for t in r.time_periods]}

    def view(self, o=None):
        o = o or self.o
        st = lambda s: {"id": s.id, "runs": [self.view_run(r) for r in s.runs]}
        return {"levels": [{"level": d.decimation.level, "factor": float(d.decimation.factor), "sample_rate": d.decimation.sample_rate, "window": d.stft.window.num_samples,
                            "in": list(d.input_channels), "out": list(d.output_channels), "ref": list(d.reference_channels or []),
                            "bands": [{"index_min": b.index_min, "index_max": b.index_max, "frequency_min": b.frequency_min, "frequency_max": b.frequency_max} for b in d.bands]}
                           for d in o.decimations],
                "local": st(o.stations.local), "remote": [st(s) for s in o.stations.remote]}

    def check(self, what, o=None):
        o = o or self.o
        got, m = self.view(o), self.m
        expect(f"{what}: levels (members)", [x["level"] for x in got["levels"]], [x["level"] for x in m["levels"]])
        for g, w in zip(got["levels"], m["levels"]):
            expect(f"{what}: level {w['level']}: bands (members)", g["bands"], w["bands"])
            expect(f"{what}: level {w['level']}", g, w)
        expect(f"{what}: local station", got["local"], m["local"])
        expect(f"{what}: remote stations (members)", got["remote"], m["remote"])
        expect(f"{what}: number of levels (members)", o.num_decimation_levels, len(m["levels"]))
        for w in m["levels"]:
            lv = o.get_decimation_level(w["level"])
            expect(f"{what}: level {w['level']} (members) found", lv.decimation.level, w["level"])
            expect(f"{what}: lowest indices", [int(x) for x in lv.lower_bounds], sorted(b["index_min"] for b in w["bands"]))
            expect(f"{what}: highest indices", [int(x) for x in lv.upper_bounds], sorted(b["index_max"] for b in w["bands"]))
            key = lambda e: (e[0], e[1])
            expect(f"{what}: band edges", sorted([float(a), float(b)] for a, b in np.asarray(lv.band_edges).reshape(-1, 2)),
                   sorted(([b["frequency_min"], b["frequency_max"]] for b in w["bands"]), key=key))
            fb = lv.frequency_bands_obj()
            expect(f"{what}: number of bands (members)", fb.number_of_bands, len(w["bands"]))
            up = [float(b.center_frequency) for b in fb.bands(direction="increasing_frequency", sortby="center_frequency")]
            down = [float(b.center_frequency) for b in fb.bands(direction="increasing_period")]
            cs = sorted(float(np.sqrt(b["frequency_min"] * b["frequency_max"])) for b in w["bands"])
            expect(f"{what}: bands by frequency", [up, down], [cs, cs[::-1]])
        expect(f"{what}: levels by number (members)", sorted(o.decimations_dict), sorted({x["level"] for x in m["levels"]}))
        for s in m["remote"]:
            x = o.stations.get_station(s["id"]) if s["id"] != m["local"]["id"] else None
            if x is not None and (x.id != s["id"] or not x.remote):
                raise Violation("not found", f"{what}: remote station {s['id']}: {x.id}, remote {x.remote}")
        expect(f"{what}: local station (members) found", o.stations.get_station(m["local"]["id"]) is o.stations.local, True)
        expect(f"{what}: run list (members)", list(o.stations.local.run_list), [r["id"] for r in m["local"]["runs"]])
        for r in m["local"]["runs"]:
            x = o.stations.local.get_run(r["id"])
            if x is None or self.view_run(x) != r:
                raise Violation("not found", f"{what}: run {r['id']}: {x and self.view_run(x)}, should be {r}")
        if o.stations.local.get_run("no such run") is not None:
            raise Violation("member appeared", f"{what}: run")

    def step(self, op, rng, what):
        from mt_metadata.processing.aurora.station import Station
        from mt_metadata.processing.aurora.stations import Stations
        do, o, m = op["do"], self.o, self.m
        free = [i for i in range(8) if i not in [x["level"] for x in m["levels"]]]
        if do == "level" and free:
            d, lo = self.level(rng, rng.choice(free))
            o.add_decimation_level(lo if rng.random() < 0.6 else lo.to_dict())
            m["levels"].append(d)
        elif do == "band" and m["levels"]:
            i = rng.randrange(len(m["levels"]))
            b, bo = self.band(rng, m["levels"][i]["level"])
            o.decimations[i].add_band(bo if rng.random() < 0.6 else bo.to_dict())
            m["levels"][i]["bands"].append(b)
        elif do == "set":
            n = rng.choice(["in", "out", "ref"])
            v = rng.choice([["hx"], ["hx", "hy"], ["bx", "by"]])
            {"in": o.set_input_channels, "out": o.set_output_channels, "ref": o.set_reference_channels}[n](v)
            for x in m["levels"]:
                x[n] = list(v)
        elif do == "drop":
            o.drop_reference_channels()
            for x in m["levels"]:
                x["ref"] = []
        elif do == "remote":
            n = rng.choice([x for x in ["r1", "r2", "r3", "mt9"] if x not in [s["id"] for s in m["remote"]]] or [None])
            if n is None:
                return
            s, d = Station(id=n), {"id": n, "runs": []}
            for _ in range(rng.choice([0, 1, 2])):
                r, ro = self.run(rng)
                if r["id"] not in [x["id"] for x in d["runs"]]:
                    s.runs.append(ro)
                    d["runs"].append(r)
            o.stations.add_remote(s if rng.random() < 0.6 else s.to_dict())
            m["remote"].append(d)
        elif do == "run":
            o.stations.local.id = m["local"]["id"] = "mt01"
            r, ro = self.run(rng)
            if r["id"] not in [x["id"] for x in m["local"]["runs"]]:
                o.stations.local.runs.append(ro)
                m["local"]["runs"].append(r)
        elif do == "assign bands":
            if not free or m["levels"]:
                return
            n = rng.randint(1, 3)
            edges = {i: [(0.05 * 4.0**-i, 0.1 * 4.0**-i), (0.1 * 4.0**-i, 0.2 * 4.0**-i)] for i in range(n)}
            order = list(edges)
            rng.shuffle(order)
            o.assign_bands({i: edges[i] for i in order}, 1.0, {i: 4 if i else 1 for i in edges}, 256)
            for i in range(n):
                sr = 1.0 / 4**i
                fr = np.arange(128) * sr / 256
                bs = []
                for lo, hi in edges[i]:
                    ix = np.where((fr >= lo) & (fr < hi))[0]
                    bs.append({"index_min": int(ix[0]), "index_max": int(ix[-1]), "frequency_min": lo, "frequency_max": hi})
                m["levels"].append({"level": i, "factor": 4.0 if i else 1.0, "sample_rate": sr, "window": 256, "in": None, "out": None, "ref": [], "bands": bs})
            for x, lv in zip(m["levels"], o.decimations):
                x["in"], x["out"], x["ref"] = list(lv.input_channels), list(lv.output_channels), list(lv.reference_channels or [])
        elif do == "frame":
            if not m["local"]["runs"] or any(not s["runs"] for s in m["remote"]):
                return
            df = o.stations.to_dataset_dataframe()
            if rng.random() < 0.3 and not m["remote"]:
                df = o.stations.local.to_dataset_dataframe()
            new = Stations()
            new.from_dataset_dataframe(df)
            p = type(o)()
            p.stations = new
            got = self.view(p)
            expect(f"{what}: stations read from the table", [got["local"], got["remote"]], [m["local"], m["remote"]])
        elif do == "reject":
            which = rng.choice(["level", "band", "remote", "get", "station", "bulk", "scale"])
            if which == "band" and not m["levels"]:
                return
            refused(f"{what}: {which}", {
                "level": lambda: o.add_decimation_level(rng.choice([5, "x", None])), "band": lambda: o.decimations[0].add_band(rng.choice([5, "x", None])),
                "remote": lambda: o.stations.add_remote(rng.choice([5, "x", None])), "get": lambda: o.get_decimation_level(99),
                "station": lambda: o.stations.get_station("no such station"), "bulk": lambda: setattr(o, "decimations", rng.choice([[5], 5, "too long a text"])),
                "scale": lambda: self.run(rng)[1].set_channel_scale_factors(5)}[which])

    def fresh(self):
        from mt_metadata.processing.aurora.processing import Processing
        return Processing()


def reload(t, op, world, what, count, rng):
    form = op["form"]
    if form == "copy":
        return t.o.copy()
    o, fresh, view = t.saved(rng) if hasattr(t, "saved") else (t.o, t.fresh, t.view)
    kw = {} if form == "xml" else {"nested": op["nested"], "required": op["required"]}
    fn = world.path("saved.json")

    def save():
        if form == "dict":
            return o.to_dict(**kw)
        if form == "xml":
            return o.to_xml(string=False)
        if form == "json":
            return o.to_json(**kw)
        with open(fn, "w") as f:
            f.write(o.to_json(**kw))
        return None

    def load(data):
        new = fresh()
        if form == "dict":
            new.from_dict(data)
        elif form == "xml":
            new.from_xml(data)
        elif form == "json":
            new.from_json(data)
        else:
            new.from_json(fn)
        return new
    if form == "file":
        if op["faults"]:
            world.process(save, faults=op["faults"], tear=op["tear"])
            count["failed_saves"] += 1
        for n, f in ("save", save), ("load", lambda: view(load(None))):
            r = world.process(f)
            if r[0] != "ok":
                raise Violation(f"{n} failed", f"{what}: {r[1:]}")
        if norm(repr(r[1]), "") != norm(repr(view(o)), ""):
            raise Violation("differs from what was saved", f"{what}: {r[1]!r} read, {view(o)!r} saved")
    try:
        new = load(save())
    except Exception as e:
        raise Violation("reload failed", f"{what}: {type(e).__name__}: {str(e)[:300]}")
    if not hasattr(t, "saved"):
        return new
    if view(new) != view(o):
        raise Violation("differs from what was saved", f"{what}: {view(new)!r} read, {view(o)!r} saved")
    return None


def execute(plan, world):
    t = {"filters": Filters, "fc": FCs, "proc": Proc}[plan["what"]](random.Random(plan["ops"][0]["r"]))
    count = {"ops": 0, "reloads": 0, "failed_saves": 0, "rejected": 0}
    trail = []
    t.check("at the start")
    for j, op in enumerate(plan["ops"]):
        what = f"op {j} ({op['do']}{' ' + op['form'] if 'form' in op else ''})"
        rng = random.Random(op["r"])
        if op["do"] == "reload":
            if op["form"] == "xml" and plan["what"] != "filters":
                op = dict(op, form="json")
            before = t.view()
            new = reload(t, op, world, what, count, rng)
            if t.view() != before:
                raise Violation("changed by saving", f"{what}: {before!r} became {t.view()!r}")
            t.check(what + ", the one that was saved")
            count["reloads"] += 1
            t.check(what, new)
            if new is not None and rng.random() < 0.5:
                t.o = new
        else:
            try:
                t.step(op, rng, what)
            except Violation:
                raise
            except ERR as e:
                raise Violation("operation failed", f"{what}: {type(e).__name__}: {str(e)[:200]}")
            t.check(what)
            count["rejected"] += op["do"] == "reject"
        count["ops"] += 1
        trail.append([op["do"], op.get("form"), digest(t.m)])
    d = digest([plan["what"], trail, t.m])
    return {"count": count, "digest": d, "state": d, "states": [digest([plan["what"], x]) for x in trail], "nontrivial": count["ops"] > 1,
            "evals": count["ops"], "sample": {"what": plan["what"], "ops": [o["do"] for o in plan["ops"]]}}


def warm():
    from . import metagen as mg
    mg.warm()
