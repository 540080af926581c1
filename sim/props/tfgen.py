"""Transfer functions from a short description, and what is in them afterwards."""
import math
import random

import numpy as np

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
WORDS = ["station01", "period", "number5", "Coordinate", "xStation", "orientations", "END", "DATA", "info", "hx", "EX", "freq"]


def gen_name(rng, numeric=True, under=True):
    k = rng.random()
    if k < 0.25 and numeric:
        return rng.choice(["300", "001", "7", "1e5", "42", "12345678", "0x1"])
    if k < 0.32:
        return rng.choice(WORDS)
    n = rng.randint(1, 12)
    chars = ALNUM + ("_" if under else "")
    s = rng.choice(ALNUM[:52]) + "".join(rng.choice(chars) for _ in range(n - 1))
    if s.lower() in ("none", "nan", "null", "inf", "true", "false"):
        s += "q"
    return s


def gen_coord(rng, lim):
    k = rng.random()
    if k < 0.1:
        return rng.choice([0.0, lim, -lim, 1.0, -1.0])
    if k < 0.25:
        return rng.uniform(-1, 1)
    if k < 0.35:
        return round(rng.uniform(-lim, lim), rng.randint(0, 3))
    if k < 0.45:   # just below a full minute or degree
        return math.copysign((rng.randrange(int(lim)) + rng.choice([60, rng.randrange(1, 60)]) / 60.0) - 1e-9 * rng.random(), rng.random() - 0.5)
    return rng.uniform(-lim, lim)


def gen_spec(rng, fmt=None, small=False):
    n = rng.choice([1, 2, 3, 5, 6, 7, rng.randint(2, 40)])
    if small:
        n = rng.randint(1, 7)
    comps = rng.choice(["z", "t", "zt", "zt", "zt"])
    spec = {
        "station": gen_name(rng),
        "survey": gen_name(rng, numeric=False),
        "project": gen_name(rng, numeric=False, under=False),
        "lat": gen_coord(rng, 90.0), "lon": gen_coord(rng, 180.0),
        "elev": rng.choice([0.0, rng.uniform(-430, 8848), round(rng.uniform(-430, 8848), 1), -1.5, 1200.0]),
        "geographic_name": rng.choice([None, "Whitehorse", "Big Bend, south rim", "Oudna", "a b"]) if rng.random() < 0.4 else None,
        "author": rng.choice([None, "J. Peacock", "M. Tesla"]) if rng.random() < 0.5 else None,
        "declination": rng.choice([0.0, round(rng.uniform(-30, 30), 2)]),
        "n": n, "order": rng.choice(["up", "up", "down", "down", "mixed"]),
        "pmin": rng.choice([1e-6, 1e-4, 1e-3, 1e-2, 1e-1, 1.0]), "pmax": rng.choice([10.0, 1e3, 2e4]),
        "comps": comps, "err": rng.random() < 0.85, "cov": rng.random() < 0.45,
        "dseed": rng.randrange(1 << 30),
        "mag": rng.choice([0, 0, -6, 4, 6]),
        "zeros": rng.choice([0, 0, 0, 0.1, 0.3]), "nans": rng.choice([0, 0, 0, 0, 0.1]),
        "azimuth": rng.choice(["std", "std", "std", "default", "odd"]),
        "nruns": rng.choice([0, 1, 1, 1, 2, 3]),
        "start": rng.randrange(0, 1_900_000_000), "dur": rng.randrange(60, 40_000_000),
        "unit": rng.random() < 0.3,
        "special": rng.choice(SPECIAL) if rng.random() < 0.25 else None,
    }
    return spec


SPECIAL = ["imag", "real", "one", "diag", "antidiag", "integer", "column", "row"]


def make_special(a, how):
    """Turn numbers into ones with a structure that code might take for something else."""
    if how == "imag":
        a = 1j * a.imag
    elif how == "real":
        a = a.real + 0j
    elif how == "one":
        a = np.ones_like(a)
    elif how == "integer":
        a = np.rint(a.real) + 1j * np.rint(a.imag)
    elif how == "diag" and a.shape[1] == 2:
        a[:, 0, 1] = a[:, 1, 0] = 0
    elif how == "antidiag" and a.shape[1] == 2:
        a[:, 0, 0] = a[:, 1, 1] = 0
    elif how == "column":
        a[:, :, 1] = 0
    elif how == "row" and a.shape[1] == 2:
        a[:, 0, :] = 0
    if not np.any(np.nan_to_num(a)):
        a[0, 0, -1] = 1j if how == "imag" else 1
    return a


def arrays(spec):
    """The numbers a description stands for."""
    rng = np.random.default_rng(spec["dseed"])
    n = spec["n"]
    if n == 1:
        p = np.array([1.0 if spec.get("unit") else spec["pmin"] * 10 ** rng.uniform(0, 1)])
    else:
        e = np.linspace(np.log10(spec["pmin"]), np.log10(spec["pmax"]), n)
        step = e[1] - e[0]
        p = 10 ** (e + rng.uniform(-0.3, 0.3, n) * step)
    if spec.get("periods"):
        p = np.array(spec["periods"][:n])
    if spec["order"] == "down":
        p = p[::-1].copy()
    elif spec["order"] == "mixed":
        p = rng.permutation(p)
    out = {"period": p}

    def cplx(*shape):
        m = 10.0 ** (spec["mag"] + rng.uniform(-2, 2, shape))
        a = m * np.exp(1j * rng.uniform(0, 2 * np.pi, shape))
        mask = rng.uniform(size=shape)
        a[mask < spec["zeros"]] = 0
        return a

    def real(*shape):
        return 10.0 ** (spec["mag"] + rng.uniform(-4, 0, shape))
    hz, hx = "t" in spec["comps"], "z" in spec["comps"]
    nanmask = rng.uniform(size=n) < spec["nans"]
    nanmask[0] = False
    if hx:
        out["z"] = cplx(n, 2, 2)
        out["z"][0, 0, 1] = 1.5 - 2.5j       # never all zero
        if spec.get("special"):
            out["z"] = make_special(out["z"], spec["special"])
        out["z"][nanmask, 0, 0] = np.nan
        if spec["err"]:
            out["zerr"] = real(n, 2, 2)
    if hz:
        out["t"] = cplx(n, 1, 2)
        out["t"][0, 0, 0] = -0.25 + 0.125j
        if spec.get("special"):
            out["t"] = make_special(out["t"], spec["special"])
        if spec["err"]:
            out["terr"] = real(n, 1, 2)
    if spec["cov"]:
        def herm(k):
            a = rng.normal(size=(n, k, k)) + 1j * rng.normal(size=(n, k, k))
            h = np.matmul(a, np.conj(np.swapaxes(a, 1, 2))) * 10.0 ** rng.uniform(-3, 3, (n, 1, 1))
            i = np.arange(k)
            h[:, i, i] = h[:, i, i].real
            return h
        out["isp"] = herm(2)
        res = herm(3)                        # ex, ey, hz
        if not hx:
            res[:, :2, :] = 0
            res[:, :, :2] = 0
        if not hz:
            res[:, 2, :] = 0
            res[:, :, 2] = 0
        out["res"] = res
    return out


AZ = {"std": {"ex": 0.0, "ey": 90.0, "hx": 0.0, "hy": 90.0, "hz": 0.0},
      "odd": {"ex": 15.0, "ey": 105.0, "hx": 12.5, "hy": 102.5, "hz": 0.0}}


def iso(t):
    import datetime
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S+00:00")


def build(spec):
    """The TF object, and what is expected to be in it."""
    from mt_metadata.timeseries import Electric, Magnetic, Run
    from mt_metadata.transfer_functions.core import TF
    a = arrays(spec)
    tf = TF()
    st = tf.station_metadata
    channels = (["ex", "ey"] if "z" in spec["comps"] else []) + ["hx", "hy"] + (["hz"] if "t" in spec["comps"] else [])
    if spec["nruns"] or spec["azimuth"] != "default":
        st.runs.remove("0")
        t0 = spec["start"]
        k = max(1, spec["nruns"])
        for i in range(k):
            r = Run(id=f"{spec['station']}{'abc'[i]}")
            r.time_period.start = iso(t0 + i * (spec["dur"] // k))
            r.time_period.end = iso(t0 + (i + 1) * (spec["dur"] // k))
            for c in channels:
                ch = (Electric if c[0] == "e" else Magnetic)(component=c)
                if spec["azimuth"] != "default":
                    ch.measurement_azimuth = AZ[spec["azimuth"]][c]
                    ch.translated_azimuth = AZ[spec["azimuth"]][c]
                ch.time_period.start = r.time_period.start
                ch.time_period.end = r.time_period.end
                r.add_channel(ch)
            st.add_run(r)
        st.update_time_period()
    tf.station = spec["station"]
    tf.survey = spec["survey"]
    tf.survey_metadata.project = spec["project"]
    tf.latitude, tf.longitude, tf.elevation = spec["lat"], spec["lon"], spec["elev"]
    st.location.declination.value = spec["declination"]
    if spec["geographic_name"]:
        st.geographic_name = spec["geographic_name"]
    if spec["author"]:
        st.acquired_by.author = spec["author"]
    tf.survey_metadata.update_time_period()
    if spec["n"] > 1 or not spec.get("unit"):   # one period of one second is what it starts with
        tf.period = a["period"]
    if "z" in a:
        tf.impedance = a["z"]
        if "zerr" in a:
            tf.impedance_error = a["zerr"]
    if "t" in a:
        tf.tipper = a["t"]
        if "terr" in a:
            tf.tipper_error = a["terr"]
    if "isp" in a:
        tf.inverse_signal_power = a["isp"]
        tf.residual_covariance = a["res"]
    return tf


def plain_array(x):
    return None if x is None else np.array(getattr(x, "data", x))


def observe(tf):
    """Everything the round-trip properties speak about."""
    n = len(tf.period)
    out = {
        "station": tf.station, "survey": tf.survey_metadata.id, "project": tf.survey_metadata.project,
        "lat": tf.latitude, "lon": tf.longitude, "elev": tf.elevation,
        "start": str(tf.station_metadata.time_period.start), "end": str(tf.station_metadata.time_period.end),
        "period": np.array(tf.period, dtype=float),
        "z": plain_array(tf.impedance), "zerr": plain_array(tf.impedance_error),
        "t": plain_array(tf.tipper), "terr": plain_array(tf.tipper_error),
        "isp": plain_array(tf.inverse_signal_power), "res": plain_array(tf.residual_covariance),
    }
    shape = {"z": (n, 2, 2), "zerr": (n, 2, 2), "t": (n, 1, 2), "terr": (n, 1, 2), "isp": (n, 2, 2), "res": (n, 3, 3)}
    for k, s in shape.items():
        if out[k] is None:
            out[k] = np.zeros(s, dtype=float if k.endswith("err") else complex)
    return out


def check_built(spec, obs):
    """The object just built must hold the numbers it was given."""
    from sim.world import HarnessError
    a = arrays(spec)
    for k in ("period", "z", "t", "isp", "res"):
        if k in a and not np.array_equal(np.nan_to_num(a[k]), np.nan_to_num(obs[k])):
            raise HarnessError(f"built transfer function does not hold {k}")
