"""Experiments described as data: surveys, stations, runs, channels, filters."""
from . import metagen as mg
from .common import class_by_name

TS = "mt_metadata.timeseries"
CLS = {"survey": f"{TS}.survey:Survey", "station": f"{TS}.station:Station", "run": f"{TS}.run:Run",
       "electric": f"{TS}.electric:Electric", "magnetic": f"{TS}.magnetic:Magnetic", "auxiliary": f"{TS}.auxiliary:Auxiliary",
       "zpk": f"{TS}.filters.pole_zero_filter:PoleZeroFilter", "coefficient": f"{TS}.filters.coefficient_filter:CoefficientFilter",
       "time delay": f"{TS}.filters.time_delay_filter:TimeDelayFilter", "fir": f"{TS}.filters.fir_filter:FIRFilter",
       "frequency response table": f"{TS}.filters.frequency_response_table_filter:FrequencyResponseTableFilter"}
COMPS = {"electric": ["ex", "ey", "e1"], "magnetic": ["hx", "hy", "hz", "bx"], "auxiliary": ["temperature", "voltage", "a1"]}
FILTERS = ["zpk", "coefficient", "time delay", "fir", "frequency response table"]
NAMES = {"survey": ["alpha", "survey_2", "MT-07", "b c", "007"], "station": ["mt001", "mt002", "mt003", "ca10", "x1"],
         "run": ["a", "b", "c", "mt001a", "001"], "filter": ["gain 0.5", "low pass", "delay_1", "fir 2", "table", "dipole_ex"]}
# settled by the members, or by the object that holds them
DERIVED = {"id", "component", "name", "type", "time_period.start", "time_period.end", "time_period.start_date", "time_period.end_date",
           "northwest_corner.latitude", "northwest_corner.longitude", "southeast_corner.latitude", "southeast_corner.longitude",
           "run_list", "channels_recorded", "filters", "sample_rate@run"}
TIMES = ["2020-01-01T00:00:00+00:00", "2020-01-02T12:00:00+00:00", "2020-02-29T23:59:59+00:00", "2021-06-01T00:00:00.500000+00:00", "2019-12-31T00:00:00+00:00"]


def kind(x):
    """survey, station, ... of an object."""
    return type(x).__name__.lower()


def cls(k):
    return class_by_name(CLS[k])


def gen_fields(rng, k, n):
    m = [f for f in mg.menu(cls(k)) if f[0] not in DERIVED and not f[0].startswith("channels_recorded")]
    out = {}
    for _ in range(n):
        name, kd, p = rng.choice(m)
        v, w = rng.choice(p)
        out[name] = [name, kd, v, w]
    if k in FILTERS:
        out.update(must(rng, k))
    return list(out.values())


def must(rng, k):
    """What a filter of a kind cannot do without."""
    out = {}

    def put(n, kd, v):
        out[n] = [n, kd, v, v]
    put("units_in", "str", rng.choice(["milliVolt", "Volt", "digital counts"]))
    put("units_out", "str", rng.choice(["nanoTesla", "milliVolt", "Volt"]))
    if k == "zpk":
        put("poles", "carray", rng.choice([["(-1+2j)", "(-1-2j)"], ["(-3+0j)"], ["(-5.5+0.25j)", "(-5.5-0.25j)", "(-1+0j)"]]))
        put("zeros", "carray", rng.choice([["0j"], ["0j", "(-2+0j)"], ["(1+1j)", "(1-1j)"]]))
    elif k == "fir":
        put("coefficients", "farray", rng.choice([[0.25, 0.5, 0.25], [1.0, -1.0], [0.125] * 8]))
    elif k == "frequency response table":
        n = rng.choice([2, 3, 6])
        put("frequencies", "farray", [0.001 * 10 ** i for i in range(n)])
        put("amplitudes", "farray", [1.0 + 0.25 * i for i in range(n)])
        put("phases", "farray", [-0.5 + 0.125 * i for i in range(n)])
    return out


def gen_times(rng):
    a, b = sorted(rng.sample(TIMES, 2))
    return [a, b] if rng.random() < 0.85 else None


def gen_channel(rng, filters, big):
    k = rng.choice(["electric", "magnetic", "magnetic", "auxiliary"])
    app = rng.sample(filters, rng.randint(0, min(3, len(filters)))) if filters else []
    return {"kind": k, "id": rng.choice(COMPS[k]), "fields": gen_fields(rng, k, rng.randint(0, 8 if big else 4)), "times": gen_times(rng),
            "applied": [[a, rng.random() < 0.5] for a in app]}


def gen_run(rng, filters, big):
    ch = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        c = gen_channel(rng, filters, big)
        ch[c["id"]] = c
    return {"kind": "run", "id": rng.choice(NAMES["run"]), "fields": gen_fields(rng, "run", rng.randint(0, 6 if big else 3)),
            "times": gen_times(rng) if not ch else None, "channels": list(ch.values())}


def gen_angle(rng, lim):
    return 0.0 if rng.random() < 0.1 else round(rng.uniform(-lim, lim), rng.choice([0, 4, 4, 4]))


def gen_station(rng, filters, big):
    rs = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = gen_run(rng, filters, big)
        rs[r["id"]] = r
    lat, lon = gen_angle(rng, 60), gen_angle(rng, 170)
    return {"kind": "station", "id": rng.choice(NAMES["station"]), "fields": gen_fields(rng, "station", rng.randint(0, 6 if big else 3)) +
            [["location.latitude", "float", lat, lat], ["location.longitude", "float", lon, lon]], "runs": list(rs.values())}


def gen_filter(rng, big, names=None):
    k = rng.choice(FILTERS)
    return {"kind": k, "id": rng.choice(names or NAMES["filter"]), "fields": gen_fields(rng, k, rng.randint(0, 5 if big else 2))}


def gen_survey(rng, big):
    fl = {}
    for _ in range(rng.choice([0, 1, 2, 4])):
        f = gen_filter(rng, big)
        fl[f["id"]] = f
    st = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = gen_station(rng, list(fl), big)
        st[s["id"]] = s
    return {"kind": "survey", "id": rng.choice(NAMES["survey"]), "fields": gen_fields(rng, "survey", rng.randint(0, 8 if big else 4)),
            "filters": list(fl.values()), "stations": list(st.values())}


def gen_experiment(rng, big=False):
    sv = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        s = gen_survey(rng, big)
        sv[s["id"]] = s
    return {"surveys": list(sv.values())}


def make(d):
    """The object a description describes, with all its members."""
    k = d["kind"]
    o = cls(k)()
    if k in FILTERS:
        o.name = d["id"]
    elif k in COMPS:
        o.component = d["id"]
    else:
        o.id = d["id"]
    for f in d["fields"]:
        o.update_attribute(f[0], mg.decode(f[1], f[2]))
    if d.get("times"):
        o.time_period.start, o.time_period.end = d["times"]
    for i, (n, a) in enumerate(d.get("applied", [])):
        o.add_filter(name=n, applied=a, stage=i + 1)
    for c in d.get("channels", []):
        o.add_channel(make(c))
    for r in d.get("runs", []):
        o.add_run(make(r))
    for s in d.get("stations", []):
        o.add_station(make(s))
    for f in d.get("filters", []):
        o.filters[f["id"]] = make(f)
    return o


def experiment(d):
    from mt_metadata.timeseries import Experiment
    e = Experiment()
    for s in d["surveys"]:
        e.add_survey(make(s))
    return e


def own(o):
    """The fields of an object itself."""
    names = [n for n, _, _ in mg.menu(type(o))]
    d = mg.state(o, names)
    if kind(o) in COMPS:
        d["filters"] = [(f.name, f.applied, f.stage, mg.plain(f.comments.value)) for f in o.filters]
    if kind(o) == "station":
        d["run_list"] = list(o.run_list)
    if hasattr(o, "time_period"):
        t = o.time_period
        for n in ("start", "end", "start_date", "end_date"):
            if n in type(t).model_fields:
                d[f"time_period.{n}"] = mg.plain(getattr(t, n))
    if kind(o) == "survey":
        for c in ("northwest_corner", "southeast_corner"):
            for n in ("latitude", "longitude"):
                d[f"{c}.{n}"] = getattr(getattr(o, c), n)
    return d


def view(e):
    """Everything in an experiment: {path: fields}, in order."""
    out = {}

    def put(path, o):
        out[path] = own(o)
        out[path]["class"] = type(o).__name__
        k = kind(o)
        if k == "survey":
            for n, f in o.filters.items():
                put(path + ("filter", n), f)
        for coll in {"survey": ["stations"], "station": ["runs"], "run": ["channels"]}.get(k, []):
            for n, x in getattr(o, coll).items():
                put(path + (n,), x)
    for n, s in e.surveys.items():
        put((n,), s)
    return out


def label(path):
    return "/".join(str(p) for p in path) or "experiment"
