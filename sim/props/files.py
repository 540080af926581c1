"""Every kind of file the library writes and reads: how to save something as one, how to read it, what a user gets from it."""
import glob
import os
import random
from pathlib import Path

import numpy as np

from . import expgen as xg
from . import tfgen
from . import things as th
from .common import LIBDIR

TF_FORMS = ("edi", "xml", "zmm")
EXP_FORMS = ("exp.json", "exp.xml")
DATA = os.path.join(LIBDIR, "data")


# ---- what is saved ------------------------------------------------------------
def gen_object(rng, kinds=("tf", "tf", "exp", "exp", "schema", "avg", "station")):
    k = rng.choice(list(kinds))
    if k == "tf":
        spec = tfgen.gen_spec(rng, small=rng.random() < 0.7)
        spec["n"] = min(spec["n"], 25)
        spec["station"] = spec["station"].replace("_", "") or "s"
        spec["survey"] = spec["survey"].replace("_", "") or "s"
        spec.update(nans=0, azimuth="std")
        return {"kind": "tf", "spec": spec}
    if k == "exp":
        return {"kind": "exp", "exp": xg.gen_experiment(rng)}
    if k == "station":
        return {"kind": "station", "exp": gen_plain_experiment(rng)}
    if k == "avg":
        return {"kind": "avg", "file": rng.choice(["tf_avg.avg", "tf_avg_newer.avg", "tf_avg_tipper.avg"])}
    return {"kind": "schema", "n": rng.randint(1, 6), "seed": rng.randrange(1 << 30)}


def gen_plain_experiment(rng):
    """An experiment that StationXML can hold."""
    return {"seed": rng.randrange(1 << 30), "stations": rng.randint(1, 2), "runs": rng.randint(1, 2), "chans": rng.randint(1, 3)}


def plain_experiment(d):
    from mt_metadata.timeseries import Electric, Experiment, Magnetic, Run, Station, Survey
    rng = random.Random(d["seed"])
    e = Experiment()
    s = Survey(id="test")
    s.fdsn.network = "ZU"
    for i in range(d["stations"]):
        t = Station(id=f"MT{i:02d}")
        t.fdsn.id = f"MT{i:02d}"
        t.location.latitude, t.location.longitude = round(rng.uniform(-80, 80), 4), round(rng.uniform(-170, 170), 4)
        t.location.elevation = round(rng.uniform(0, 3000), 1)
        for j in range(d["runs"]):
            r = Run(id=f"MT{i:02d}{'abc'[j]}", sample_rate=8.0)
            r.time_period.start, r.time_period.end = f"2020-01-0{1 + 2 * j}T00:00:00", f"2020-01-0{2 + 2 * j}T00:00:00"
            for c in ["ex", "hy", "hz"][:d["chans"]]:
                ch = (Electric if c[0] == "e" else Magnetic)(component=c, sample_rate=8.0)
                ch.time_period.start, ch.time_period.end = r.time_period.start, r.time_period.end
                r.add_channel(ch)
            t.add_run(r)
        s.add_station(t)
    e.add_survey(s)
    return e


def make(d):
    if d["kind"] == "tf":
        return tfgen.build(d["spec"])
    if d["kind"] == "exp":
        return xg.experiment(d["exp"])
    if d["kind"] == "station":
        return plain_experiment(d["exp"])
    if d["kind"] == "avg":
        from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg
        o = ZongeMTAvg(fn=Path(DATA, "transfer_functions", d["file"]))
        o.read()
        return o
    from mt_metadata.base.schema import BaseDict
    rng = random.Random(d["seed"])
    o = BaseDict()
    for i in range(d["n"]):
        o[f"name{i}"] = {"type": rng.choice(["string", "float", "integer"]), "required": rng.random() < 0.5,
                         "style": rng.choice(["name", "free form", "number"]), "units": None, "description": f"text number {rng.randrange(1000)}",
                         "options": [], "alias": [], "example": "an example", "default": None}
    return o


def forms(d):
    return {"tf": TF_FORMS, "exp": EXP_FORMS, "station": ("sta.xml",), "avg": ("avg",), "schema": ("sch.json", "sch.csv")}[d["kind"]]


def gen_how(rng, d):
    form = rng.choice(forms(d))
    h = {"form": form, "path": rng.random() < 0.5, "via": rng.choice(["write", "write", "dir", "obj"]), "required": rng.random() < 0.7, "nested": rng.random() < 0.5}
    if form == "edi" and rng.random() < 0.4:
        h["kw"] = rng.choice([{"latlon_format": "dd"}, {"longitude_format": "LONG"}])
    return h


def save(o, how, fn):
    """Save the object as the file `fn`."""
    f = how["form"]
    p = Path(fn) if how["path"] else fn
    if f in TF_FORMS:
        kw = how.get("kw", {})
        if how["via"] == "dir":
            o.write(save_dir=os.path.dirname(fn) or ".", fn_basename=os.path.basename(fn), file_type=f, **kw)
        elif how["via"] == "default":
            o.save_dir = Path(os.path.dirname(fn) or ".")
            o.write(file_type=f, **kw)
        elif how["via"] == "obj":
            {"edi": o.to_edi, "xml": o.to_emtfxml, "zmm": o.to_zmm}[f]().write(p, **kw)
        else:
            o.write(p, **kw)
    elif f == "exp.json":
        o.to_json(fn=p, nested=how["nested"], required=how["required"])
    elif f == "exp.xml":
        o.to_xml(fn=p, required=how["required"])
    elif f == "sta.xml":
        from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
        XMLInventoryMTExperiment().mt_to_xml(o, stationxml_fn=p)
    elif f == "avg":
        o.write(p)
    elif f == "sch.json":
        o.to_json(p)
    else:
        o.to_csv(p)


def look(o):
    """Everything in an object, as plain data."""
    n = type(o).__name__
    if n == "ZongeMTAvg":
        out = {"components": th.deep(dict(o.components)) if isinstance(getattr(o, "components", None), dict) else None}
        for k in ("z", "t", "z_err", "t_err", "frequency", "comp_list"):
            out[k] = th.deep(getattr(o, k, None))
        out["df"] = None if o.df is None else th.deep(o.df.to_dict("list"))
        return out
    if n == "BaseDict":
        return th.deep(dict(o))
    return th.deep(o)


# ---- reading --------------------------------------------------------------------
def readers(form):
    """The ways to read a file of this form."""
    return {"edi": ("tf", "own"), "xml": ("tf", "own"), "zmm": ("tf", "own"), "zss": ("tf",), "avg": ("tf", "own"), "j": ("tf", "own"),
            "exp.json": ("exp",), "exp.xml": ("exp",), "sta.xml": ("sta",), "sch.json": ("sch",), "sch.csv": ("sch",)}[form]


def read(form, fn, way, path=False):
    p = Path(fn) if path else fn
    if way == "tf":
        from mt_metadata.transfer_functions.core import TF
        tf = TF(fn=p)
        tf.read()
        return tf
    if way == "own":
        if form == "edi":
            from mt_metadata.transfer_functions.io.edi import EDI
            return EDI(fn=p)
        if form == "xml":
            from mt_metadata.transfer_functions.io.emtfxml import EMTFXML
            return EMTFXML(fn=p)
        if form == "zmm":
            from mt_metadata.transfer_functions.io.zfiles import ZMM
            o = ZMM(fn=p)
            o.read()
            return o
        if form == "j":
            from mt_metadata.transfer_functions.io.jfiles import JFile
            o = JFile(fn=p)
            o.read()
            return o
        from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg
        o = ZongeMTAvg(fn=Path(fn))
        o.read()
        return o
    if way == "exp":
        from mt_metadata.timeseries import Experiment
        e = Experiment()
        e.from_json(p) if form.endswith("json") else e.from_xml(fn=p)
        return e
    if way == "sta":
        from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
        return XMLInventoryMTExperiment().xml_to_mt(stationxml_fn=p)
    if way == "sch":
        from mt_metadata.base.schema import BaseDict
        o = BaseDict()
        o.from_json(p) if form.endswith("json") else o.from_csv(p)
        return o
    raise ValueError(way)


def form_of(path):
    d, b = os.path.split(path)
    if d.endswith("mt_xml"):
        return "exp.xml"
    if d.endswith("stationxml"):
        return "sta.xml"
    return b.rsplit(".", 1)[1]


SLOW = ("station_xml_with_fir_example.xml", "multi_run_experiment_02.xml", "example.xml", "tf_edi_empower.edi")


def shipped(slow=False):
    """The example files that come with the library: [(form, relative name)]."""
    out = []
    for d in ("transfer_functions", "mt_xml", "stationxml"):
        for p in sorted(glob.glob(os.path.join(DATA, d, "*.*"))):
            b = os.path.basename(p)
            if b.endswith((".py", ".txt")) or (b in SLOW and not slow):
                continue
            out.append((form_of(p), f"{d}/{b}"))
    return out


def numbers(o):
    """Periods and data values a user gets, by name."""
    out = {}
    n = type(o).__name__
    if n == "TF":
        obs = tfgen.observe(o)
        return {k: obs[k] for k in ("period", "z", "zerr", "t", "terr", "isp", "res")}
    for k in ("period", "periods", "frequency", "z", "z_err", "t", "t_err", "Z", "T"):
        try:
            v = getattr(o, k, None)
        except Exception:
            continue
        if isinstance(v, np.ndarray) and v.dtype.kind in "fc":
            out[k] = v
    return out
