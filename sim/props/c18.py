"""C18: a transfer function object agrees with its history."""
import copy
import os
import pickle
import random

import numpy as np

from sim.world import Violation
from . import files
from . import tfgen
from .common import digest

ID = "C18"
TIMEOUT = 180
ROLES = ("ex", "ey", "hz", "hx", "hy")
MAPS = ["default", "lemi12", "lemi34", "phoenix123", "musgraves", "nims"]
# what can be set: (part of the model, rows, columns, complex)
QUANTITIES = {
    "impedance": ("tf", ("ex", "ey"), ("hx", "hy"), True),
    "tipper": ("tf", ("hz",), ("hx", "hy"), True),
    "transfer_function": ("tf", ("ex", "ey", "hz"), ("hx", "hy"), True),
    "impedance_error": ("err", ("ex", "ey"), ("hx", "hy"), False),
    "tipper_error": ("err", ("hz",), ("hx", "hy"), False),
    "transfer_function_error": ("err", ("ex", "ey", "hz"), ("hx", "hy"), False),
    "impedance_model_error": ("merr", ("ex", "ey"), ("hx", "hy"), False),
    "tipper_model_error": ("merr", ("hz",), ("hx", "hy"), False),
    "transfer_function_model_error": ("merr", ("ex", "ey", "hz"), ("hx", "hy"), False),
    "inverse_signal_power": ("isp", ("hx", "hy"), ("hx", "hy"), True),
    "residual_covariance": ("res", ("ex", "ey", "hz"), ("ex", "ey", "hz"), True),
}
PARTS = {"tf": (("ex", "ey", "hz"), ("hx", "hy"), complex), "err": (("ex", "ey", "hz"), ("hx", "hy"), float), "merr": (("ex", "ey", "hz"), ("hx", "hy"), float),
         "isp": (("hx", "hy"), ("hx", "hy"), complex), "res": (("ex", "ey", "hz"), ("ex", "ey", "hz"), complex)}
# what can be read only when that is there
NEEDS = {"impedance": "impedance", "impedance_error": "impedance", "impedance_model_error": "impedance", "tipper": "tipper", "tipper_error": "tipper", "tipper_model_error": "tipper",
         "transfer_function": "transfer_function", "transfer_function_error": "transfer_function", "transfer_function_model_error": "transfer_function",
         "inverse_signal_power": "inverse_signal_power", "residual_covariance": "residual_covariance"}
BAD = ["count", "count", "shape", "shape", "flat", "text", "hole", "scalar", "object", "channels", "others", "extra", "unnamed"]


# ------------------------------------------------------------------ generate
def gen_names(rng):
    k = rng.random()
    if k < 0.6:
        return rng.choice(MAPS)
    if k < 0.8:
        return {r: f"{r[0]}{rng.choice('abcxyz')}{i}" for i, r in enumerate(ROLES)}
    # names that mean something else by default
    e, h = rng.sample(["ex", "ey"], 2), rng.sample(["hx", "hy", "hz"], 3)
    return {"ex": e[0], "ey": e[1], "hx": h[0], "hy": h[1], "hz": h[2]}


def gen_set(rng, i):
    q = rng.choice(["impedance", "tipper", "inverse_signal_power", "residual_covariance", rng.choice(sorted(QUANTITIES)), rng.choice(sorted(QUANTITIES))])
    op = {"op": "set", "i": i, "q": q, "form": rng.choice(["ndarray", "ndarray", "list", "tuple", "da", "da", "da"]), "seed": rng.randrange(1 << 30),
          "special": rng.choice([None, None, None, None, "zero", "nan", "int", "row", "col"]), "n": rng.choice([1, 1, 2, 3, 5, 8]), "order": rng.choice(["up", "down", "mixed"]),
          "shuffle": rng.random() < 0.4, "transpose": rng.random() < 0.15, "scribble": rng.random() < 0.5, "coords": rng.random() < 0.2}
    if rng.random() < 0.25:
        op["bad"] = rng.choice(BAD)
    return op


def gen_period(rng, i):
    op = {"op": "period", "i": i, "as": rng.choice(["period", "period", "frequency"]), "form": rng.choice(["ndarray", "ndarray", "list"]), "n": rng.choice([None, None, 1, 2, 3, 5, 8]),
          "seed": rng.randrange(1 << 30), "order": rng.choice(["up", "down", "mixed"]), "scribble": rng.random() < 0.5, "ints": rng.random() < 0.15}
    if rng.random() < 0.15:
        op["bad"] = rng.choice(["text", "scalar", "table", "object"])
    elif rng.random() < 0.15:  # periods hardly different from those it has
        op.update(n=None, ints=False, near=rng.choice([1e-6, 1e-8, 1e-10, 1e-13]))
    return op


def gen_place(rng, i):
    k = rng.choice(["latitude", "longitude", "elevation", "station", "survey", "tf_id"])
    if k in ("latitude", "longitude"):
        v = tfgen.gen_coord(rng, 90.0 if k == "latitude" else 180.0)
        bad = rng.choice([91.0, "north", [1, 2]]) if k == "latitude" else rng.choice([181.5, "west", [1, 2]])
    elif k == "elevation":
        v, bad = rng.uniform(-400, 8000), rng.choice(["high", [1]])
    else:
        v, bad = tfgen.gen_name(rng, numeric=False), None
    if bad is not None and rng.random() < 0.25:
        return {"op": "place", "i": i, "k": k, "v": bad, "bad": True}
    return {"op": "place", "i": i, "k": k, "v": v}


def gen_op(rng, k):
    i = rng.randrange(k)
    x = rng.random()
    if x < 0.48:
        return gen_set(rng, i)
    if x < 0.62:
        return gen_period(rng, i)
    if x < 0.69:
        return gen_place(rng, i)
    if x < 0.76:
        op = {"op": "names", "i": i, "v": gen_names(rng), "scribble": rng.random() < 0.5}
        if rng.random() < 0.3:
            op["bad"] = rng.choice(["missing", "list", "none"])
        return op
    if x < 0.82:
        return {"op": "copy", "i": i, "how": rng.choice(["copy", "copy", "deepcopy", "pickle"])}
    if x < 0.85:
        return {"op": "none", "i": i, "q": rng.choice(sorted(QUANTITIES))}
    if x < 0.9:
        return {"op": "look", "i": i, "seed": rng.randrange(1 << 30)}
    if x < 0.95:
        return {"op": "merge", "i": i, "n": rng.randint(1, 5), "seed": rng.randrange(1 << 30), "side": rng.choice(["above", "above", "below", "over"]), "order": rng.choice(["up", "down", "mixed"]),
                "route": rng.choice(["tf", "list", "dict"]), "inplace": rng.random() < 0.5, "bounds": [rng.choice([None, rng.random()]), rng.choice([None, rng.random()])],
                "bad": rng.choice([None, None, None, None, "type", "keys"])}
    return {"op": "save", "i": i, "form": rng.choice(["edi", "xml", "zmm"]), "faults": [] if rng.random() < 0.5 else [{"at": rng.choice([0, 0, 1, 3]), "match": rng.choice(["w", "open", "write"]), "do": rng.choice(["ENOSPC", "EIO", "EACCES", "EMFILE"]), "sticky": rng.random() < 0.3}]}


def gen_new(rng):
    kw = []
    if rng.random() < 0.4:
        kw.append(["period", gen_period(rng, 0)])
        kw[-1][1].update(n=kw[-1][1]["n"] or 4, bad=None)
    if rng.random() < 0.4:
        kw.append(["channel_nomenclature", gen_names(rng)])
    if rng.random() < 0.3:
        kw.append([rng.choice(["latitude", "elevation"]), rng.uniform(-60, 60)])
    rng.shuffle(kw)
    return {"op": "new", "kw": kw}


def gen_load(rng):
    form, name = rng.choice([x for x in files.shipped() if "tf" in files.readers(x[0])])
    return {"op": "load", "form": form, "name": name, "names": gen_names(rng), "late": rng.random() < 0.3}


def generate(rng, tier, idx):
    plan = {"ops": [gen_load(rng) if rng.random() < 0.15 else gen_new(rng)], "clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0}
    k = 1
    for _ in range(rng.randint(2, 12 if tier == "quick" else 30)):
        if k < 4 and rng.random() < 0.06:
            plan["ops"].append(gen_new(rng) if rng.random() < 0.6 else gen_load(rng))
            k += 1
            continue
        op = gen_op(rng, k)
        plan["ops"].append(op)
        if op["op"] == "copy" or (op["op"] == "merge" and not op["inplace"]):
            k = min(k + 1, 4)
    return plan


# --------------------------------------------------------------------- model
class Model:
    def __init__(self):
        self.period = np.array([1.0])
        self.names = {r: r for r in ROLES}
        self.place = {"latitude": 0.0, "longitude": 0.0, "elevation": 0.0}
        self.blank()

    def blank(self):
        n = len(self.period)
        for p, (rows, cols, kind) in PARTS.items():
            setattr(self, p, np.zeros((n, len(rows), len(cols)), kind))

    def parts(self):
        return {p: getattr(self, p) for p in PARTS}

    def empty(self):
        return all(not (a != 0).any() for a in self.parts().values())

    def fresh(self):
        return len(self.period) == 1 and self.period[0] == 1 and self.empty()

    def take(self, q, v):
        part, rows, cols, kind = QUANTITIES[q]
        r = [PARTS[part][0].index(x) for x in rows]
        c = [PARTS[part][1].index(x) for x in cols]
        a = getattr(self, part).copy()
        a[np.ix_(range(len(a)), r, c)] = v
        setattr(self, part, a)
        if part in ("isp", "res"):
            self.derive()

    def derive(self):
        """Errors that follow from the covariances."""
        if not (self.has("inverse_signal_power") and self.has("residual_covariance")):
            return
        with np.errstate(all="ignore"):
            e = np.sqrt(np.abs(np.einsum("nii->ni", self.res)[:, :, None] * np.einsum("nii->ni", self.isp)[:, None, :]))
        self.err = e

    def get(self, q):
        part, rows, cols, kind = QUANTITIES[q]
        return getattr(self, part)[np.ix_(range(len(self.period)), [PARTS[part][0].index(x) for x in rows], [PARTS[part][1].index(x) for x in cols])]

    def has(self, q):
        return bool((self.get(q) != 0).any())


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def close(a, b):
    with np.errstate(all="ignore"):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)


# --------------------------------------------------------------------- check
def check(tf, m, where, count):
    """Everything that can be read is what the model says."""
    def bad(text):
        raise Violation("disagrees with its history", f"{where}: {text}")
    count["looks"] += 1
    p = np.asarray(tf.period, dtype=float)
    if not same(p, m.period):
        bad(f"periods are {p.tolist()}, last accepted {m.period.tolist()}")
    if not np.allclose(np.asarray(tf.frequency, dtype=float), 1.0 / m.period, rtol=1e-15, atol=0):
        bad(f"frequencies are {tf.frequency}, the periods {m.period.tolist()}")
    if dict(tf.channel_nomenclature) != m.names:
        bad(f"channel names are {tf.channel_nomenclature}, last accepted {m.names}")
    if dict(tf.inverse_channel_nomenclature) != {v: k for k, v in m.names.items()}:
        bad(f"channels by name are {tf.inverse_channel_nomenclature}, the names are {m.names}")
    for k, v in m.place.items():
        x = getattr(tf, k)
        if x != v:
            bad(f"{k} is {x!r}, last accepted {v!r}")
    for q in ("transfer_function", "impedance", "tipper", "inverse_signal_power", "residual_covariance"):
        h = getattr(tf, "has_" + q)()
        if bool(h) != m.has(q):
            bad(f"has_{q}() is {h}, {'something other than zero' if m.has(q) else 'nothing'} was set")
    for q, (part, rows, cols, kind) in QUANTITIES.items():
        v = getattr(tf, q)
        if not m.has(NEEDS[q]):
            if v is not None:
                bad(f"{q} is there, and nothing was set")
            continue
        if v is None:
            bad(f"{q} is None")
        want = m.get(q)
        derived = close if part == "err" else same
        if not derived(np.asarray(v.data), want):
            bad(f"{q} is {show(v.data)}, last accepted {show(want)}")
        if not same(np.asarray(v.coords["period"].data, dtype=float), m.period):
            bad(f"periods of {q} are {v.coords['period'].data}")
        for a, r in enumerate(rows):
            for b, c in enumerate(cols):
                w = np.asarray(v.sel(output=m.names[r], input=m.names[c]).data)
                if not derived(w, want[:, a, b]):
                    bad(f"{q} of output {m.names[r]} and input {m.names[c]} is {show(w)}, last accepted {show(want[:, a, b])}")
        for k in ("latitude", "longitude", "elevation"):
            if k in m.place and v.attrs.get(k) != m.place[k]:
                bad(f"{q} says {k} {v.attrs.get(k)!r}, last accepted {m.place[k]!r}")
    for name, (r, c) in {"zxx": ("ex", "hx"), "zxy": ("ex", "hy"), "zyx": ("ey", "hx"), "zyy": ("ey", "hy"), "tzx": ("hz", "hx"), "tzy": ("hz", "hy")}.items():
        w = np.asarray(tf.dataset.transfer_function.loc[getattr(tf, "index_" + name)].data)
        if not same(w, m.tf[:, PARTS["tf"][0].index(r), PARTS["tf"][1].index(c)]):
            bad(f"{name} is {show(w)}")
    t = str(tf)
    for what, v in (("Impedance:", m.has("impedance")), ("Tipper:", m.has("tipper")), ("N Periods:", len(m.period))):
        if [what, str(v)] not in [[ln.split(":")[0].strip() + ":", ln.split(":")[1].strip()] for ln in t.splitlines() if ":" in ln]:
            bad(f"its text does not say {what} {v}")


def show(a):
    a = np.asarray(a)
    return str(a.ravel()[:4].tolist()) + ("..." if a.size > 4 else "") + str(list(a.shape))


# ------------------------------------------------------------------- perform
def make_periods(rng, n, order, ints=False):
    if ints:
        p = np.sort(rng.choice(np.arange(2, 200), n, replace=False)).astype(float)
    else:
        p = 10.0 ** (np.linspace(-2, 3, n) + rng.uniform(-0.1, 0.1, n)) if n > 1 else 10.0 ** rng.uniform(-2, 3, 1)
    if order == "down":
        p = p[::-1].copy()
    elif order == "mixed":
        p = rng.permutation(p)
    return p


def make_value(rng, n, rows, cols, kind, special):
    shape = (n, rows, cols)
    a = rng.uniform(0.1, 9, shape)
    if kind:
        a = a * np.exp(1j * rng.uniform(0, 6.28, shape))
    if special == "zero":
        a[:] = 0
    elif special == "nan":
        hole = rng.uniform(size=shape) < 0.3
        hole[:, :, 0] = False      # whether nothing but NaN counts as set is left open
        a[hole] = np.nan
    elif special == "int":
        a = rng.integers(1, 50, shape)
    elif special == "row":
        a[rng.integers(0, n)] = 0
    elif special == "col":
        a[:, rng.integers(0, rows), :] = 0
    return a


def perform_set(tf, m, op, count):
    import xarray as xr
    rng = np.random.default_rng(op["seed"])
    part, rows, cols, kind = QUANTITIES[op["q"]]
    bad = op.get("bad")
    fresh = m.empty() and len(m.period) == 1
    n = len(m.period)
    periods = m.period
    da = op["form"] == "da" or bad in ("channels", "others", "extra", "unnamed")
    if da and fresh:
        n = op["n"]
        periods = make_periods(rng, n, op["order"])
    if bad == "count":
        if da and fresh:
            bad = "shape"
        else:
            n = n + 1 if rng.random() < 0.5 or n == 1 else n - 1
            periods = make_periods(rng, n, "up")
    if bad == "others" and fresh:
        bad = "channels"
    good = make_value(rng, n, len(rows), len(cols), kind, op["special"])
    v = good
    lenient = False
    if bad == "shape":
        k = (len(rows) + 1, len(cols)) if rng.random() < 0.5 else (len(rows), len(cols) + 1)
        v = make_value(rng, n, *k, kind, None)
    elif bad == "flat":
        v = good[0] if not da else good
        if da:
            bad = "channels"
    if bad in ("text", "hole"):
        v = good.astype(object)
        v[-1, -1, -1] = "not a number" if bad == "text" else {"a": 1}
        if bad == "hole" or op["form"] == "da":
            v[0, 0, 0] = 7.5
    if bad == "scalar":
        v = 5.0
    elif bad == "object":
        v = {"a": 1} if rng.random() < 0.5 else "impedance"
    elif not da:
        if op["form"] in ("list", "tuple"):
            v = v.tolist()
            if op["form"] == "tuple":
                v = tuple(tuple(tuple(b) if isinstance(b, list) else b for b in a) for a in v)
    else:
        out, inp = [m.names[r] for r in rows], [m.names[c] for c in cols]
        if bad == "shape":
            out, inp = (out + ["zz"])[:v.shape[1]], (inp + ["zz"])[:v.shape[2]]
        if bad == "channels":
            if rng.random() < 0.5:
                out = [f"{x}_q" for x in out]
            else:
                inp = [f"{x}_q" for x in inp]
        if bad == "others":
            periods = periods * 1.5
        coords = {"period": periods, "output": out, "input": inp}
        if bad == "unnamed":
            coords.pop(["period", "input", "output"][rng.integers(0, 3)])
        v = xr.DataArray(v, dims=["period", "output", "input"], coords=coords, name="given", attrs={"latitude": 1234.5})
        if bad == "extra":
            v = v.expand_dims({"more": [1, 2]}, axis=3)
        if bad is None:
            if op["shuffle"]:
                v = v.isel(output=rng.permutation(len(out)), input=rng.permutation(len(inp)))
            if op["coords"]:
                v = v.assign_coords(site="here")
            if op["transpose"]:
                v = v.transpose("input", "output", "period") if rng.random() < 0.5 else v.transpose("period", "input", "output")
                lenient = True
    err = attempt(setattr, tf, op["q"], v)
    if bad:
        if err is None:
            raise Violation("accepted what it cannot hold", f"{op['q']} = {bad}: {show(v) if hasattr(v, 'shape') else v}")
        count["rejected"] += 1
    elif err is None:
        if da and fresh:
            m.period = np.array(periods)
            m.blank()
        m.take(op["q"], good)
        count["accepted"] += 1
    elif not lenient:
        raise Violation("rejected", f"{op['q']} with {n} periods as {op['form']} ({op['special']}): {type(err).__name__}: {err}")
    if op["scribble"]:
        scribble(v)
    return bad or "ok"


def scribble(v):
    """The caller goes on using what it handed over."""
    a = v if isinstance(v, np.ndarray) else getattr(v, "values", None)
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = a.dtype.type(77) if a.dtype != object else 77
    elif isinstance(v, list) and v:
        v[:] = [77] * len(v)


def attempt(f, *a):
    try:
        f(*a)
    except Exception as e:
        return e
    return None


def perform_period(tf, m, op, count):
    rng = np.random.default_rng(op["seed"])
    bad = op.get("bad")
    n = op["n"] or len(m.period)
    p = make_periods(rng, n, op["order"], op["ints"])
    if op.get("near") and n == len(m.period):
        p = np.array(m.period, dtype=float) * (1 + op["near"] * rng.integers(1, 9, n))
    v = 1.0 / p if op["as"] == "frequency" else p.copy()
    if op["as"] == "frequency":
        p = 1.0 / v
    if bad == "text":
        v = np.array([f"p{k}" for k in range(n)]) if op["as"] == "frequency" else "some text"
    elif bad == "scalar":
        v = 5.0
        if op["as"] == "frequency":
            v = {"a": 1}
    elif bad == "table":
        v = np.ones((n, 2, 2)) * 2.5 + np.arange(n)[:, None, None]
    elif bad == "object":
        v = object()
    elif op["form"] == "list":
        v = v.tolist() if op["as"] == "period" else v
    ints = op["ints"] and op["form"] == "list" and isinstance(v, list)
    if ints:
        v = [int(x) for x in v]
    err = attempt(setattr, tf, op["as"], v)
    if bad:
        if err is None:
            raise Violation("accepted what it cannot hold", f"{op['as']} = {v}")
        count["rejected"] += 1
    elif err is None:
        if n != len(m.period):
            if not m.empty():
                raise Violation("accepted what it cannot hold", f"{n} periods, and there are values for {len(m.period)}")
            m.period = p
            m.blank()
        m.period = p
        count["accepted"] += 1
    else:
        if n == len(m.period) or m.fresh():
            raise Violation("rejected", f"{op['as']} with {n} values: {type(err).__name__}: {err}")
        count["rejected"] += 1
    if op["scribble"]:
        scribble(v)
    return bad or "ok"


def names_of(v):
    from mt_metadata.transfer_functions import CHANNEL_MAPS
    return dict(CHANNEL_MAPS[v]) if isinstance(v, str) else dict(v)


def make(op, count):
    from mt_metadata.transfer_functions import TF
    m = Model()
    kw = {}
    for k, v in op["kw"]:
        if k == "period":
            rng = np.random.default_rng(v["seed"])
            p = make_periods(rng, v["n"], v["order"], v["ints"])
            if v["as"] == "frequency":
                kw["frequency"] = 1.0 / p
                p = 1.0 / kw["frequency"]
            else:
                kw["period"] = p.copy() if v["form"] == "ndarray" else p.tolist()
            m.period = p
            m.blank()
        elif k == "channel_nomenclature":
            kw[k] = names_of(v)
            m.names = dict(kw[k])
        else:
            kw[k] = v
            m.place[k] = v
    tf = TF(**kw)
    for k, v in kw.items():
        scribble(v)
        if isinstance(v, dict):
            v.clear()
    return tf, m


def load(op, count):
    """A file read under other channel names holds what it holds under the usual ones."""
    from mt_metadata.transfer_functions import TF
    fn = os.path.join(files.DATA, op["name"])
    names = names_of(op["names"])
    ref = TF(fn)
    ref.read()
    if op["late"]:
        tf = TF(fn)
        tf.read()
        tf.channel_nomenclature = dict(names)
    else:
        tf = TF(fn, channel_nomenclature=dict(names))
        tf.read()
    m = Model()
    m.names = names
    m.place = {k: getattr(ref, k) for k in m.place}
    m.period = np.array(ref.period, dtype=float)
    m.blank()
    ds = ref.dataset
    for p, (rows, cols, kind) in PARTS.items():
        long = {"tf": "transfer_function", "err": "transfer_function_error", "merr": "transfer_function_model_error", "isp": "inverse_signal_power", "res": "residual_covariance"}[p]
        setattr(m, p, np.array(ds[long].loc[dict(output=list(rows), input=list(cols))].transpose("period", "output", "input").data, dtype=kind))
    if any(np.isnan(getattr(m, p)).any() for p in ("tf", "isp", "res")):
        return None          # whether nothing but NaN counts as set is left open
    count["loaded"] += 1
    return tf, m


def perform_merge(tf, m, op, world, count):
    """Another transfer function with periods above, below or among the present ones."""
    from mt_metadata.transfer_functions import TF
    rng = np.random.default_rng(op["seed"])
    bad = op.get("bad")
    if bad:
        other = {"type": 5, "keys": {"tf": tf, "period_min": 1}}[bad]
        if attempt(tf.merge, other, None, None, op["inplace"]) is None:
            raise Violation("accepted what it cannot hold", f"merge with {other}")
        count["rejected"] += 1
        return None, None
    o = Model()
    o.names = dict(m.names)
    base = make_periods(rng, op["n"], op["order"])
    lo, hi = m.period.min(), m.period.max()
    o.period = {"above": base * (hi * 3 / base.min()), "below": base * (lo / 3 / base.max()), "over": base}[op["side"]]
    o.blank()
    other = TF(channel_nomenclature=dict(m.names), period=o.period.copy())
    for q in ("transfer_function", "transfer_function_error", "inverse_signal_power", "residual_covariance"):
        part, rows, cols, kind = QUANTITIES[q]
        v = make_value(rng, op["n"], len(rows), len(cols), kind, None)
        setattr(other, q, v)
        o.take(q, v)
    a, b = op["bounds"]
    lo_, hi_ = (None if x is None else float(lo + (hi - lo) * x) for x in (a, b))
    if lo_ is not None and hi_ is not None and lo_ > hi_:
        lo_, hi_ = hi_, lo_
    inside = np.ones(len(m.period), bool)
    if lo_ is not None:
        inside &= m.period >= lo_
    if hi_ is not None:
        inside &= m.period <= hi_
    arg = {"tf": other, "list": [other], "dict": {"tf": other, "period_min": None, "period_max": None}}[op["route"]]
    try:
        r = tf.merge(arg, lo_, hi_, op["inplace"])
        err = None
    except Exception as e:
        err = e
    order = np.argsort(o.period, kind="stable")
    if not same(np.sort(np.asarray(other.period, dtype=float)), o.period[order]):
        raise Violation("disagrees with its history", f"merged with: its periods were {o.period.tolist()}, are {other.period.tolist()}")
    check(other, o, "what was merged with", count)
    lines = sorted([(m.period[k], 0, k) for k in range(len(m.period)) if inside[k]] + [(o.period[k], 1, k) for k in range(op["n"])])
    if err is not None:
        if op["side"] != "over" and inside.any():
            raise Violation("rejected", f"merge of {m.period.tolist()} within {lo_} to {hi_} with {o.period.tolist()}: {type(err).__name__}: {err}")
        count["rejected"] += 1
        return None, None
    w = copy.deepcopy(m)
    w.period = np.array([x[0] for x in lines])
    for p in PARTS:
        setattr(w, p, np.array([getattr((m, o)[s], p)[k] for _, s, k in lines]))
    if len(m.period) > 0 and not inside.any() and op["side"] == "over" and False:
        return None, None
    count["accepted"] += 1
    return (tf if op["inplace"] else r), w


def perform_save(tf, m, op, world, j, count):
    from mt_metadata.transfer_functions import TF
    if not m.has("transfer_function"):
        return "nothing"
    fn = world.path(f"f{j}.{op['form']}")
    world.disk_on(op["faults"])
    err = attempt(tf.write, fn)
    fired = list(world.faults.fired)
    world.disk_off()
    count["saves"] += 1
    if err is not None:
        if not fired and op["form"] == "xml" and not (tf.station.isalnum() and str(tf.survey_metadata.project).isalnum()):
            return "refused"
        if not fired:
            raise Violation("save failed", f"{op['form']}: {type(err).__name__}: {err}")
        return "failed"
    if fired:
        return "fired"
    z, t = m.has("impedance"), m.has("tipper")
    parts = [x for x, h in ((m.get("impedance"), z), (m.get("tipper"), t)) if h]
    if not all((np.abs(x) < 9e31).all() for x in parts) or (op["form"] == "zmm" and len(set(m.period)) != len(m.period)):
        return "ok"
    back = TF(fn)
    err = attempt(lambda: back.read(**({"rotate_to_measurement_coordinates": False} if op["form"] == "zmm" else {})))
    if err is not None:
        raise Violation("cannot be read back", f"{op['form']}: {type(err).__name__}: {err}")
    count["loads"] += 1
    p = np.asarray(back.period, dtype=float)
    at = [int(np.argmin(abs(np.log(p / x)))) for x in m.period]
    for q, h in (("impedance", z), ("tipper", t)):
        got = getattr(back, q)
        if not h:
            continue
        if got is None:
            raise Violation("lost in the file", f"{op['form']}: no {q}")
        got, want = np.asarray(got.data)[at], m.get(q)
        if abs(got - want).max() > 1e-3 * abs(want).max():
            raise Violation("wrong in the file", f"{op['form']}: {q} {show(want)} is read as {show(got)}")
    return "loaded"


def execute(plan, world):
    count = {"accepted": 0, "rejected": 0, "looks": 0, "copies": 0, "saves": 0, "loads": 0, "merges": 0, "loaded": 0}
    all_, trail = [], []
    os.chdir(world.root)
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        r = "ok"
        if k == "new":
            all_.append(make(op, count))
            i = len(all_) - 1
        elif k == "load":
            got = load(op, count) or make({"kw": []}, count)
            put(all_, *got)
            i = len(all_) - 1
        else:
            i = op["i"] % len(all_)
            tf, m = all_[i]
            if k == "set":
                r = perform_set(tf, m, op, count)
            elif k == "period":
                r = perform_period(tf, m, op, count)
            elif k == "none":
                setattr(tf, op["q"], None)
            elif k == "place":
                err = attempt(setattr, tf, op["k"], op["v"])
                if op.get("bad"):
                    if err is None:
                        raise Violation("accepted what it cannot hold", f"{op['k']} = {op['v']!r}")
                    count["rejected"] += 1
                elif err is not None:
                    raise Violation("rejected", f"{op['k']} = {op['v']!r}: {type(err).__name__}: {err}")
                else:
                    m.place[op["k"]] = op["v"]
                    count["accepted"] += 1
            elif k == "names":
                v = names_of(op["v"])
                given = {"missing": {a: b for a, b in v.items() if a != "hz"}, "list": list(v), "none": None}.get(op.get("bad"), v)
                err = attempt(setattr, tf, "channel_nomenclature", given)
                if op.get("bad"):
                    if err is None:
                        raise Violation("accepted what it cannot hold", f"channel names {given}")
                    count["rejected"] += 1
                elif err is not None:
                    raise Violation("rejected", f"channel names {given}: {type(err).__name__}: {err}")
                else:
                    m.names = dict(v)
                    count["accepted"] += 1
                if op["scribble"] and isinstance(given, dict):
                    given["ex"] = "scribble"
            elif k == "copy":
                c = {"copy": lambda: tf.copy(), "deepcopy": lambda: copy.deepcopy(tf), "pickle": lambda: pickle.loads(pickle.dumps(tf))}[op["how"]]()
                put(all_, c, copy.deepcopy(m))
                count["copies"] += 1
            elif k == "look":
                look(tf, random.Random(op["seed"]))
            elif k == "merge":
                c, w = perform_merge(tf, m, op, world, count)
                if w is not None:
                    count["merges"] += 1
                    if op["inplace"]:
                        all_[i] = (tf, w)
                    else:
                        put(all_, c, w)
            elif k == "save":
                r = perform_save(tf, m, op, world, j, count)
        for n, (tf, m) in enumerate(all_):
            check(tf, m, f"object {n} after op {j} ({k} {op.get('q') or op.get('k') or op.get('as') or ''}{' rejected ' + str(op['bad']) if op.get('bad') else ''}{'' if n == i else ', on object ' + str(i)})", count)
        trail.append([k, op.get("q"), op.get("form"), op.get("bad"), r, len(all_[i][1].period)])
    d = digest([trail, [[m.period.tolist(), m.names, {p: a.tobytes().hex() for p, a in m.parts().items()}] for _, m in all_]])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["accepted"] > 0, "evals": count["looks"],
            "sample": {"ops": trail[:6]}}


def put(all_, tf, m):
    if len(all_) < 4:
        all_.append((tf, m))
    else:
        all_[-1] = (tf, m)


def look(tf, rng):
    """Queries, and what a caller may do with what it gets."""
    for q in rng.sample(sorted(QUANTITIES), 3):
        v = getattr(tf, q)
        if v is not None:
            v.attrs["latitude"] = 4321.0
            v.name = "taken"
            scribble(v)
    str(tf), repr(tf)
    tf == tf
    d = dict(tf.index_zxy)
    d.clear()


def warm():
    from . import tfio
    tfio.warm()
