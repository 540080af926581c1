"""Objects of every kind (metadata, experiments and their parts, transfer functions, keyed lists) and what can be done to them;
everything readable in them as plain data."""
import copy
import enum
import os
import pickle
import re

import numpy as np

from . import c05, c17
from . import expgen as xg
from . import metagen as mg
from . import tfgen
from .common import LIBDIR, class_by_name


# ---- reading everything ---------------------------------------------------
def deep(x, depth=0):
    """Everything that can be read in an object, as plain data."""
    if x is None or isinstance(x, (str, bool, int, bytes)):
        return x
    if isinstance(x, float):
        return repr(x)
    if depth > 14:
        return "..."
    d = depth + 1
    if isinstance(x, enum.Enum):
        return deep(x.value, d)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["array", list(x.shape), [deep(v, d) for v in x.ravel().tolist()]]
        return ["array", list(x.shape), str(x.dtype), np.ascontiguousarray(x).tobytes()]
    n = type(x).__name__
    if n in ("MTime", "MDate"):
        return [n, str(x)]
    if n == "TF":
        return tf_deep(x, d)
    if n == "ListDict":
        return ["ListDict", [[deep(k, d), deep(v, d)] for k, v in x.items()]]
    if mg.model(type(x)):
        names = [k for k, i in type(x).model_fields.items() if i.deprecated is None]
        names += sorted(k for k in (x.__pydantic_extra__ or {}) if not k.startswith("_") and k not in names)
        return [n, {k: deep(read(x, k), d) for k in names}]
    if n == "Dataset":
        return ["Dataset", {str(k): deep(v, d) for k, v in x.variables.items()}]
    if n in ("DataArray", "Variable", "IndexVariable"):
        return [n, list(map(str, x.dims)), deep(np.asarray(x.values), d)]
    if n in READERS or n == "Information":
        return [n, {k: deep(v, d) for k, v in data_of(x).items()}]
    if isinstance(x, dict):
        return ["dict", [[deep(k, d), deep(v, d)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [n, [deep(v, d) for v in x]]
    return f"{n}:{x}"


def read(x, k):
    try:
        return getattr(x, k, "<none>")
    except (IndexError, KeyError, ValueError, TypeError, ZeroDivisionError) as e:      # nothing to work it out from yet
        return f"<{type(e).__name__}>"


READERS = {"EDI": "mt_metadata.transfer_functions.io.edi.edi", "ZMM": "mt_metadata.transfer_functions.io.zfiles.zmm",
           "EMTFXML": "mt_metadata.transfer_functions.io.emtfxml.emtfxml", "JFile": "mt_metadata.transfer_functions.io.jfiles.jfile",
           "ZongeMTAvg": "mt_metadata.transfer_functions.io.zonge.zonge"}


def data_of(x):
    """What a plain object holds, whether it or its class holds it."""
    out = {}
    for c in reversed(type(x).__mro__[:-1]):
        out.update({k: v for k, v in vars(c).items() if isinstance(v, (list, dict, str, int, float, tuple, np.ndarray)) and not k.startswith("__")})
    out.update({k: v for k, v in vars(x).items() if k != "logger"})
    return out


def tf_deep(tf, d):
    out = {"survey": deep(tf.survey_metadata, d), "nomenclature": deep(dict(tf.channel_nomenclature), d), "fn": str(tf.fn)}
    if not len(tf.survey_metadata.stations):     # has been taken apart
        return ["TF", out]
    out["dataset"] = deep(tf.dataset, d)
    out["station"] = tf.station
    for k in ("impedance", "impedance_error", "tipper", "tipper_error", "inverse_signal_power", "residual_covariance"):
        v = getattr(tf, k)
        out[k] = None if v is None else deep(np.asarray(v), d)
    return ["TF", out]


def first_difference(a, b, at="", order=True):
    if type(a) is not type(b):
        return f"{at}: {short(a)} became {short(b)}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{at}.{k}: {'added' if k not in a else 'gone'}"
            r = first_difference(a[k], b[k], f"{at}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_difference(x, y, f"{at}[{i}]" if not (isinstance(x, list) and x and isinstance(x[0], str) and x[0][:1].isupper()) else at)
            if r:
                return r
        return None if len(a) == len(b) else f"{at}: length {len(a)} became {len(b)}: {short(a)} {short(b)}"
    if a == b:
        return None
    if isinstance(a, (str, bytes)) and min(len(a), len(b)) > 80:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"{at}: at {i} {a[max(0, i - 30):i + 50]!r} became {b[max(0, i - 30):i + 50]!r}"
    return f"{at}: {short(a)} became {short(b)}"


def short(x):
    s = repr(x)
    return s if len(s) < 90 else s[:87] + "..."


# ---- making -----------------------------------------------------------------
GRID = [1.0, 4.0, 10.0, 40.0, 100.0]      # the periods of stations processed alike
BUNDLED = ["tf_zmm.zmm", "tf_zss_tipper.zss", "tf_jfile.j", "tf_edi_cgg.edi", "tf_edi_spectra_in.edi", "tf_xml.xml", "tf_edi_metronix.edi", "tf_edi_empower.edi"]


def gen(rng, kinds=("meta", "meta", "exp", "tf"), big=False):
    k = rng.choice(list(kinds))
    if k == "meta":
        names = mg.usable()
        heavy = [n for n in names if n.split(":")[1] in c17.WEIGHTY]
        c = rng.choice(heavy if rng.random() < 0.4 else names)
        return {"kind": "meta", "cls": c, "fields": c17.gen_fields(rng, class_by_name(c), rng.randint(0, 6))}
    if k == "reader":
        return {"kind": "reader", "cls": rng.choice(["EDI", "EDI", "ZMM", "ZMM", "EMTFXML", "EMTFXML", "JFile", "ZongeMTAvg"])}
    if k == "exp":
        return {"kind": "exp", "exp": xg.gen_experiment(rng, big)}
    if k == "listdict":
        names = mg.usable()
        items = []
        for j in range(rng.randint(0, 5)):
            key = rng.choice(["a", "b", "c", "d", "e", "0", "1", None, 3])
            what = rng.choice(["meta", "meta", "list", "dict", "text", "number", "array"])
            v = {"meta": lambda: [c, c17.gen_fields(rng, class_by_name(c), rng.randint(0, 4))], "list": lambda: [rng.randint(0, 9) for _ in range(3)],
                 "dict": lambda: {"x": [1, 2], "y": rng.randint(0, 9)}, "text": lambda: "abc", "number": lambda: 1.5, "array": lambda: [1.0, 2.0]}
            c = rng.choice(names)
            items.append([key, what, v[what]()])
        return {"kind": "listdict", "items": items}
    spec = tfgen.gen_spec(rng, small=True)
    spec["n"] = min(spec["n"], 5)
    if rng.random() < 0.6:
        spec["periods"] = GRID
    spec["station"] = spec["station"].replace("_", "") or "s"
    return {"kind": "tf", "spec": spec}


def make(d):
    if d["kind"] == "meta":
        o = class_by_name(d["cls"])()
        for n, kd, v, _ in d["fields"]:
            o.update_attribute(n, mg.decode(kd, v))
        return o
    if d["kind"] == "reader":
        import importlib
        return getattr(importlib.import_module(READERS[d["cls"]]), d["cls"])()
    if d["kind"] == "exp":
        return xg.experiment(d["exp"])
    if d["kind"] == "listdict":
        from mt_metadata.common.list_dict import ListDict
        def value(what, v):
            if what == "meta":
                return make({"kind": "meta", "cls": v[0], "fields": v[1]})
            return np.array(v) if what == "array" else copy.deepcopy(v)
        return ListDict([(k, value(w, v)) for k, w, v in d["items"]])
    return tfgen.build(d["spec"])


def sort_of(o):
    n = type(o).__name__
    if n in READERS:
        return "reader"
    return {"TF": "tf", "Experiment": "exp", "ListDict": "listdict"}.get(n, "meta")


# ---- doing something to one of them ------------------------------------------------
def gen_op(rng, d=None):
    """An operation that makes sense for any thing: parts for each kind."""
    op = {"do": rng.choice(["set", "set", "set", "grow", "grow", "part", "save", "bad", "load", "fill", "clear"]), "r": rng.randrange(1 << 30),
          "at": [rng.randrange(4) for _ in range(4)]}
    return op


def lists_in(o, depth=0, out=None):
    """Every list, array, dictionary and nested object reachable by reading."""
    out = [] if out is None else out
    if depth > 6 or len(out) > 400:
        return out
    if type(o).__name__ in ("MTime", "MDate"):
        return out
    if mg.model(type(o)):
        for k, i in type(o).model_fields.items():
            if i.deprecated is None:
                v = getattr(o, k, None)
                if isinstance(v, (list, dict, np.ndarray)) or mg.model(type(v)) or type(v).__name__ == "ListDict":
                    out.append((o, k, v))
                    lists_in(v, depth + 1, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            lists_in(v, depth + 1, out)
    elif isinstance(o, dict) or type(o).__name__ == "ListDict":
        for v in list(o.values()):
            lists_in(v, depth + 1, out)
    return out


def grow(o, rng):
    """Change something in place, as a user does who holds the list."""
    c = [x for x in lists_in(o) if isinstance(x[2], (list, dict, np.ndarray)) or type(x[2]).__name__ == "ListDict"]
    full = [x for x in c if len(x[2])]
    if not c:
        return False
    _, _, v = rng.choice(full if full and rng.random() < 0.8 else c)
    if isinstance(v, np.ndarray):
        if not v.size or not v.flags.writeable:
            return False
        v.ravel()[rng.randrange(v.size)] += 1
        return True
    if isinstance(v, list):
        how = rng.choice(["append", "pop", "reverse", "replace"])
        if how == "append" or not v:
            v.append(v[-1] if v and isinstance(v[-1], (str, float, int)) else "ex")
        elif how == "pop":
            v.pop()
        elif how == "reverse":
            v.reverse()
        elif isinstance(v[0], str):
            v[0] = v[0] + "_2"
        elif isinstance(v[0], (float, int)):
            v[0] = v[0] + 1
        else:
            v.pop(0)
        return True
    if isinstance(v, dict):
        v["added"] = 1
        return True
    if len(v):
        v.remove(v.keys()[rng.randrange(len(v))])
        return True
    return False


def set_one(o, rng):
    m = mg.menu(type(o)) if mg.model(type(o)) else []
    if not m:
        return False
    n, kd, p = rng.choice(m)
    v, _ = rng.choice(p)
    o.update_attribute(n, mg.decode(kd, v))
    return True


def parts(o):
    """Nested objects and members of an object, at any depth."""
    return [x[2] for x in lists_in(o) if mg.model(type(x[2])) and type(x[2]).__name__ not in ("MTime", "MDate")] + \
           [y for x in lists_in(o) if isinstance(x[2], list) or type(x[2]).__name__ == "ListDict" for y in x[2] if mg.model(type(y))]


def apply(o, op, world, tag=""):
    """Do it; returns (whether something was done, what came of it)."""
    import random
    rng = random.Random(op["r"])
    k = sort_of(o)
    do = op["do"]
    if k == "reader":
        return reader_apply(o, do, rng, world, tag)
    if k == "tf":
        return tf_apply(o, do, rng, world, tag)
    if k == "exp":
        if do in ("part", "fill", "load", "bad", "clear"):
            return exp_apply(o, do, rng, op, world, tag)
        if do == "save":
            return exp_save(o, rng, world, tag)
        if do == "grow" and rng.random() < 0.5:
            return grow(o, rng), None
        kind = rng.choice(["add_station", "add_run", "add_channel", "add_filter", "set", "set", "remove", "add_survey"])
        x = {"do": kind, "at": op["at"], "level": rng.choice(["survey", "station", "run", "channel", "filter"])}
        if kind == "add_survey":
            x["what"] = xg.gen_survey(rng, False)
        elif kind == "add_station":
            x["what"] = xg.gen_station(rng, [], False)
        elif kind == "add_run":
            x["what"] = xg.gen_run(rng, [], False)
        elif kind == "add_channel":
            x["what"] = xg.gen_channel(rng, [], False)
        elif kind == "add_filter":
            x["what"] = xg.gen_filter(rng, False)
        elif kind == "set":
            x["fields"] = {q: xg.gen_fields(rng, q, 2) for q in (["survey", "station", "run"] + list(xg.COMPS) + xg.FILTERS)}
            names = {"polezerofilter": "zpk", "coefficientfilter": "coefficient", "timedelayfilter": "time delay", "firfilter": "fir",
                     "frequencyresponsetablefilter": "frequency response table"}
            for a, b in names.items():
                x["fields"][a] = x["fields"][b]
        return c05.change(o, x), None
    if k == "listdict":
        if do in ("set", "part", "grow") and len(o):
            v = o[rng.randrange(len(o))]
            if isinstance(v, list):
                v.append(rng.randrange(9))
            elif isinstance(v, dict):
                v["x"].append(rng.randrange(9))
            elif isinstance(v, np.ndarray):
                v[0] += 1
            else:
                return (set_one(v, rng) if mg.model(type(v)) else False), None
            return True, None
        if do in ("clear", "load") and len(o):
            o.remove(rng.randrange(len(o)))
            return True, None
        if do == "fill":
            from mt_metadata.timeseries import Run
            o.append(Run(id="added"))
            return True, None
        if do == "save":
            o.extend(type(o)([("x1", 1), ("x2", 2)]))
            return True, None
        if do == "bad":
            try:
                o.extend(12)
            except TypeError:
                pass
            return True, None
        return False, None
    # metadata
    if do == "set":
        return set_one(o, rng), None
    if do == "part":
        p = parts(o)
        return (set_one(rng.choice(p), rng) if p else False), None
    if do == "grow":
        return grow(o, rng), None
    if do == "clear":
        n = rng.choice([f for f in mg.menu(type(o))])[0]
        h = o
        for q in n.split(".")[:-1]:
            h = getattr(h, q)
        setattr(h, n.split(".")[-1], getattr(type(h)(), n.split(".")[-1]))
        return True, None
    if do == "bad":
        n, kd, p = rng.choice(mg.menu(type(o)))
        b = c17.bad_value(rng, kd, n, None)
        if b is None:
            return False, None
        try:
            o.update_attribute(n, b)
        except Exception:
            pass
        return True, None
    if do in ("load", "fill"):
        cls = type(o)
        f = c17.gen_fields(rng, cls, 3)
        f = [x for x in f if x[0] != "filters"]
        if do == "load":
            o.from_dict({x[0]: mg.decode(x[1], x[2]) for x in f} or {}, skip_none=rng.random() < 0.5)
        else:
            q = cls()
            for x in f:
                q.update_attribute(x[0], mg.decode(x[1], x[2]))
            o.update(q)
        return True, None
    # save
    how = rng.choice(["dict", "json", "xml", "series", "nested", "text"])
    if how == "dict":
        return True, deep(o.to_dict(required=rng.random() < 0.5))
    if how == "nested":
        return True, deep(o.to_dict(nested=True))
    if how == "json":
        return True, o.to_json(nested=rng.random() < 0.5)
    if how == "xml":
        return True, o.to_xml(string=True)
    if how == "text":
        return True, str(o)
    return True, deep(o.to_series().to_dict())


def exp_apply(o, do, rng, op, world, tag):
    if do == "part":
        x = c05.pick(o, op["at"], rng.choice(["survey", "station", "run", "channel"]))
        return (set_one(x, rng) if x is not None else False), None
    if do == "clear":
        x = c05.pick(o, op["at"], rng.choice(["survey", "station", "run"]))
        if x is None:
            return False, None
        setattr(x, {"survey": "stations", "station": "runs", "run": "channels"}[xg.kind(x)], [])
        return True, None
    if do == "bad":
        try:
            o.add_survey("not a survey")
        except TypeError:
            pass
        x = c05.pick(o, op["at"], rng.choice(["survey", "station", "run"]))
        if x is not None:
            try:
                getattr(x, {"survey": "add_station", "station": "add_run", "run": "add_channel"}[xg.kind(x)])(12)
            except (TypeError, ValueError):
                pass
        return True, None
    if do == "fill":
        e = xg.experiment(xg.gen_experiment(rng))
        o.merge(e)
        return True, None
    e = xg.experiment(xg.gen_experiment(rng))
    o.from_json(e.to_json(required=True))
    return True, None


def exp_save(o, rng, world, tag):
    how = rng.choice(["json", "xml", "dict"])
    if how == "dict":
        return True, deep(o.to_dict(required=True))
    fn = world.path(f"{tag}e.{how}")
    getattr(o, f"to_{how}")(fn=fn, required=True)
    with open(fn, "rb") as f:
        return True, f.read()


def tf_apply(tf, do, rng, world, tag):
    n = len(tf.period)
    r = np.random.default_rng(rng.randrange(1 << 30))
    if do == "set":
        what = rng.choice(["z", "t", "zerr", "terr", "lat", "station", "survey", "period", "meta", "elev"])
        if what == "z":
            tf.impedance = r.normal(size=(n, 2, 2)) + 1j * r.normal(size=(n, 2, 2))
        elif what == "t":
            tf.tipper = r.normal(size=(n, 1, 2)) + 1j * r.normal(size=(n, 1, 2))
        elif what == "zerr":
            tf.impedance_error = r.uniform(size=(n, 2, 2))
        elif what == "terr":
            tf.tipper_error = r.uniform(size=(n, 1, 2))
        elif what == "lat":
            tf.latitude, tf.longitude = round(rng.uniform(-80, 80), 3), round(rng.uniform(-170, 170), 3)
        elif what == "elev":
            tf.elevation = round(rng.uniform(0, 5000), 1)
        elif what == "station":
            tf.station = rng.choice(["s01", "site2", "300"])
        elif what == "survey":
            tf.survey = rng.choice(["big", "small1"])
        elif what == "period":
            if n == 1:
                return False, None
            tf.period = np.array(tf.period) * 2
        else:
            set_one(rng.choice([tf.station_metadata, tf.survey_metadata, tf.station_metadata.runs[0]]), rng)
        return True, None
    if do == "grow":
        what = rng.choice(["dataset", "z", "period", "nomenclature", "meta", "meta"])
        if what == "dataset":
            v = rng.choice(sorted(map(str, tf.dataset.data_vars)))
            a = tf.dataset[v].values
            a.ravel()[...] = a.ravel() + 1
        elif what == "z":
            z = tf.impedance
            if z is None:
                return False, None
            a = np.asarray(z.data)
            if a.flags.writeable:
                a[0, 0, 0] = 99.0
        elif what == "period":
            a = np.asarray(tf.period)
            if a.flags.writeable:
                a[0] = a[0]
        elif what == "nomenclature":
            nm = tf.channel_nomenclature
            nm["ex"] = nm["ex"]
        else:
            return grow(tf.survey_metadata, rng), None
        return True, None
    if do == "part":
        p = parts(tf.survey_metadata)
        return set_one(rng.choice(p), rng), None
    if do == "clear":
        from mt_metadata.timeseries import Run
        tf.station_metadata.add_run(Run(id="added"))
        return True, None
    if do == "bad":
        for what, v in (("impedance", np.zeros((n, 3, 2))), ("tipper", "x"), ("latitude", 1000.0)):
            try:
                setattr(tf, what, v)
            except Exception:
                pass
        return True, None
    if do == "save":
        fmt = rng.choice(["edi", "xml", "zmm", "dict"])
        if fmt == "dict":
            return True, deep(tf.survey_metadata.to_dict())
        fn = world.path(f"{tag}tf.{fmt}")
        try:
            tf.write(fn)
        except Exception as e:      # not every transfer function fits every format
            return True, f"{type(e).__name__}"
        with open(fn, "rb") as f:
            return True, f.read()
    # load: a file of another transfer function, read into an object of its own
    from mt_metadata.transfer_functions.core import TF
    spec = tfgen.gen_spec(rng, small=True)
    spec.update(n=2, station="other1", comps="zt", nans=0)
    if rng.random() < 0.6:
        spec["periods"] = GRID
    how = {}
    if rng.random() < 0.2:
        fn = os.path.join(LIBDIR, "data", "transfer_functions", rng.choice(BUNDLED))
    else:
        fn = world.path(f"{tag}other.{rng.choice(['edi', 'xml', 'zmm'])}")
        tfgen.build(spec).write(fn)
        if fn.endswith("zmm"):
            how = {"rotate_to_measurement_coordinates": False}
            level = rng.randint(0, 5)          # as processing writes it
            with open(fn, encoding="utf-8") as f:
                text = f.read()
            with open(fn, "w", encoding="utf-8") as f:
                f.write(re.sub(r"decimation level\s+\d+", f"decimation level   {level}", text))
    if do == "fill":
        tf.fn = fn
        tf.read(**how)
        return True, None
    t2 = TF(fn=fn)
    t2.read(**how)
    return True, deep(t2)


OWN = {"EDI": ["tf_edi_cgg.edi", "tf_edi_metronix.edi", "tf_edi_quantec.edi", "tf_edi_spectra_in.edi", "tf_edi_empower.edi", "tf_edi_rho_only.edi", "tf_edi_no_error.edi"],
       "ZMM": ["tf_zmm.zmm", "tf_zss_tipper.zss"], "EMTFXML": ["tf_xml.xml", "tf_poor_xml.xml", "tf_xml_no_site_layout.xml", "tf_xml_multiple_attachments.xml"],
       "JFile": ["tf_jfile.j"], "ZongeMTAvg": ["tf_avg.avg", "tf_avg_newer.avg", "tf_avg_tipper.avg"]}
EXT = {"EDI": "edi", "ZMM": "zmm", "EMTFXML": "xml", "ZongeMTAvg": "avg", "JFile": "j"}


def reader_apply(x, do, rng, world, tag):
    """The object of one file format, used directly."""
    n = type(x).__name__
    if do in ("load", "fill", "set"):
        fn = os.path.join(LIBDIR, "data", "transfer_functions", rng.choice(OWN[n]))
        if rng.random() < 0.4 and n in ("EDI", "ZMM", "EMTFXML"):
            spec = tfgen.gen_spec(rng, small=True)
            spec.update(n=3, station="other1", comps="zt", nans=0, periods=GRID)
            fn = world.path(f"{tag}other.{EXT[n]}")
            tfgen.build(spec).write(fn)
        how = {"rotate_to_measurement_coordinates": False} if n == "ZMM" else {}
        if do == "load":
            x = type(x)()
        x.read(fn, **how)
        return True, deep(x) if do == "load" else None
    if do == "save":
        if n == "JFile":
            return True, deep(x)
        fn = world.path(f"{tag}own.{EXT[n]}")
        try:
            x.write(fn)
        except Exception as e:      # nothing in it yet
            return True, f"{type(e).__name__}"
        if not os.path.exists(fn):
            return False, None
        with open(fn, "rb") as f:
            return True, f.read()
    if do == "part":
        try:
            return True, deep(x.survey_metadata) if hasattr(x, "survey_metadata") and rng.random() < 0.5 else deep(x.station_metadata)
        except Exception as e:
            return True, f"{type(e).__name__}"
    # the caller changes what the object holds: a value in a list, a table or an object
    held = [(k, v) for k, v in data_of(x).items() if isinstance(v, (list, dict)) or mg.model(type(v))]
    if do == "bad" or not held:
        return False, None
    k, v = rng.choice(held)
    if isinstance(v, list):
        v.append("x")
    elif isinstance(v, dict):
        v[rng.choice(["ex", "hx", "new"])] = "e1"
    else:
        set_one(v, rng)
    return True, None


# ---- copies --------------------------------------------------------------------
VIAS = ["copy", "copy", "deepcopy", "pickle", "part", "list"]


def copy_of(o, op):
    """A copy of the thing, or of one of its members."""
    via = op["via"]
    if sort_of(o) == "reader":
        return o, copy.deepcopy(o)
    if via == "part":
        p = [x for x in parts(o if sort_of(o) != "tf" else o.survey_metadata)] if sort_of(o) != "exp" else \
            [x for x in (c05.pick(o, op["at"], lv) for lv in ("survey", "station", "run", "channel")) if x is not None]
        p = [x for x in p if hasattr(x, "copy")]
        if not p:
            return None, None
        o = p[op["at"][3] % len(p)]
        return o, o.copy()
    if via == "list":
        m = [x[2] for x in lists_in(o) if type(x[2]).__name__ == "ListDict"] if sort_of(o) in ("meta", "exp") else [o.survey_metadata.stations] if sort_of(o) == "tf" else [o]
        if not m:
            return None, None
        o = m[op["at"][3] % len(m)]
        return o, o.copy()
    if via == "copy":
        return o, o.copy()
    return o, copy.deepcopy(o)
