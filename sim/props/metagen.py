"""Metadata objects of every kind: their fields, values for them, and what
reading a field must give."""
import enum
import math
import types
import typing

from .common import all_classes, class_name

WORDS = ["alpha", "MT-07", "north rim", "x", "Q-9 (b)", "UTM", "a b c", "5 nT", "Geo & Magn", "1e5", "007", "say \"hi\"", "O'Brien",
         "très haut", "a<b>c", "50%", "line, comma", "end.", "{x: 1}", "0.5", "Zürich", "two  spaces", "one\nline two", "tab\tstop", "北方"]
TIMES = [("2020-01-01T00:00:00+00:00",) * 2, ("1999-12-31T23:59:59+00:00",) * 2, ("2024-02-29T12:30:45+00:00",) * 2,
         ("2011-06-05T04:03:02.250000+00:00",) * 2, ("2015-03-04", "2015-03-04T00:00:00+00:00"),
         ("2001-09-09T01:46:40", "2001-09-09T01:46:40+00:00"), ("1970-01-01T00:00:01+00:00",) * 2]
FLOATS = [1.0, -1.0, 0.5, 12.345678901234567, 1e-9, 1e12, -273.15, 3.0, 0.1, 90.0, -45.5, 100.0]
INTS = [1, 2, 7, 10, 64, 4096]


def strip(ann):
    """(plain type, may be None, alternatives)"""
    org = typing.get_origin(ann)
    if org is typing.Annotated:
        return strip(typing.get_args(ann)[0])
    if org is typing.Union or org is types.UnionType:
        args = [a for a in typing.get_args(ann) if a is not type(None)]
        return args, type(None) in typing.get_args(ann)
    return [ann], False


def model(a):
    from pydantic import BaseModel
    return isinstance(a, type) and issubclass(a, BaseModel)


def kind_of(info):
    args, none = strip(info.annotation)
    if any(getattr(a, "__name__", "") in ("MTime", "MDate") for a in args):
        return "time", none, None
    ms = [a for a in args if model(a)]
    if ms and len(ms) == 1 and (len(args) == 1 or ms[0].__name__ == "Comment"):
        return "model", none, ms[0]
    if ms:
        return "other", none, None
    if len(args) == 1:
        a = args[0]
        if isinstance(a, type) and issubclass(a, enum.Enum):
            return "enum", none, [m.value for m in a]
        if a is bool or a is int or a is float or a is str:
            return a.__name__, none, None
        if typing.get_origin(a) is list and typing.get_args(a) == (str,):
            return "liststr", none, None
        if typing.get_origin(a) is list and typing.get_args(a) == (float,):
            return "listfloat", none, None
        if typing.get_origin(a) is list and len(typing.get_args(a)) == 1 and model(typing.get_args(a)[0]):
            return "models", none, typing.get_args(a)[0]
        if getattr(a, "__name__", "") in ("HttpUrl", "AnyUrl"):
            return "url", none, None
        if getattr(a, "__name__", "") == "EmailStr":
            return "email", none, None
        return "other", none, None
    names = {getattr(a, "__name__", str(a)) if typing.get_origin(a) is None else str(a) for a in args}
    if names == {"str", "list[str]"}:
        return "strlist", none, None
    if names in ({"HttpUrl", "str"}, {"AnyUrl", "str"}):
        return "url", none, None
    if "ndarray" in names:
        return ("carray" if any("complex" in n for n in names) else "farray" if "list[float]" in names else "other"), none, None
    if names == {"str", "int"}:
        return "datum", none, None
    return "other", none, None


def leaves(cls, prefix="", seen=(), depth=0):
    """(dotted name, kind, may be None, choices, owner class, field) of every field of a class."""
    out = []
    for name, info in cls.model_fields.items():
        if info.deprecated is not None:
            continue
        k, none, x = kind_of(info)
        if k == "model":
            if x in seen or depth > 5:
                continue
            out += leaves(x, f"{prefix}{name}.", seen + (cls,), depth + 1)
            continue
        out.append((prefix + name, k, none, x, cls, name))
    return out


# Fields whose values are normalised, constrained beyond their type, or follow
# from other parts of the object: what may be put there, or None: left alone.
UNITS = ["milliVolt", "nanoTesla", "digital counts", "Volt", "milliVolt per kilometer"]
SPECIAL = {
    "units": UNITS, "units_in": UNITS, "units_out": UNITS,
    "latitude": [0.5, -33.25, 89.999, -0.0125, 45.123456789], "longitude": [0.5, -133.25, 179.999, -0.0125, 145.123456789],
    "datum": ["WGS 84", "NAD27"],
    "type@FilterBase": None, "type@ChannelBase": None, "type@ChannelResponse": None, "type@Electric": None,
    "component@Electric": ["ex", "ey", "e1", "ex_2"], "component@Magnetic": ["hx", "hy", "bz", "rrhx", "h3"],
    "component": ["temperature", "voltage", "a1"],
    "name@AppliedFilter": ["low pass", "filter_1", "gain 0.5", "a"],
    "release_license": None, "run_list": None, "channels_recorded": None,
    "channels_recorded_electric": None, "channels_recorded_magnetic": None, "channels_recorded_auxiliary": None,
    "year_collected": None, "product_id": None,
    # fixed by the kind of feature, or settled by the object that holds it
    "name@Feature": None, "description@Feature": None, "domain@Feature": None, "per_window_detrend_type": None,
    # a keyword names all channels at once; an azimuth follows from the positions
    "ex@ChannelNomenclature": None, "ey@ChannelNomenclature": None, "hx@ChannelNomenclature": None,
    "hy@ChannelNomenclature": None, "hz@ChannelNomenclature": None, "channels_estimated": None, "decimation_levels": None, "azm@EMeasurement": None, "name@Band": None, "units@DataType": ["mV", "nT"],
}
DATES = [("2020-01-01", "2020-01-01"), ("1999-12-31", "1999-12-31"), ("2024-02-29", "2024-02-29")]
TIMESPECIAL = {"start_date": DATES, "end_date": DATES, "date@GDP": DATES, "time@GDP": None, "year_collected": None}
MORE = ["2021", "2021-2022", "ex", "hx", "rrex", "ZU", "abc", "a_1", "B2", "MT001", "x.y-z"]


def pools(owner, field, kind, none, choices):
    """What may be assigned to a field: pairs (assigned, read back)."""
    import re
    info = owner.model_fields[field]
    for c in owner.__mro__:
        k = f"{field}@{c.__name__}"
        if k in SPECIAL or k in TIMESPECIAL:
            p = SPECIAL.get(k, TIMESPECIAL.get(k))
            return None if p is None else [x if isinstance(x, tuple) else (x, x) for x in p]
    if kind == "time":
        return TIMESPECIAL.get(field, TIMES)
    if field in SPECIAL:
        p = SPECIAL[field]
        if p is None:
            return None
        if kind == ("float" if isinstance(p[0], float) else "str"):
            return [(v, v) for v in p]
    lat = {"reflat": "latitude", "reflon": "longitude", "lat": "latitude", "lon": "longitude"}.get(field)
    if lat and kind == "float":
        return [(v, v) for v in SPECIAL[lat]]
    if field in ("b", "e", "length") and owner.__name__ == "Unit":
        return [(v, v) for v in UNITS]
    if kind == "str":
        pat = [m.pattern for m in info.metadata if getattr(m, "pattern", None)]
        words = WORDS + (MORE if pat else [])
        words = [w for w in words if all(re.search(p.replace("{3}*", "*"), w) for p in pat)]
        if "{3}*" in "".join(pat):
            words = ["abc", "LFZ", "B2X"]
        return [(w, w) for w in words] or None
    if kind == "float":
        return [(v, v) for v in FLOATS]
    if kind == "int":
        return [(v, v) for v in INTS]
    if kind == "bool":
        return [(True, True), (False, False)]
    if kind == "enum":
        return [(v, v) for v in choices if v != ""]     # that is how "not set" is written
    if kind == "liststr":
        return [(v, v) for v in (["ex"], ["hx", "hy"], ["a 1", "b,2", "c"])]
    if kind == "listfloat":
        return [(v, v) for v in ([1.5], [0.0, -2.25, 1e-7], [3.0, 4.0])]
    if kind == "farray":
        return [(v, v) for v in ([1.5], [0.25, 0.5, 1.0], [0.0, 1e-9, 0.125, 2.5], [0.0, 0.0])]
    if kind == "carray":
        return [(v, v) for v in (["(-1+2j)", "(-1-2j)"], ["(-3+0j)"], ["0j"], ["(1e-09+1e-12j)", "0j", "(-5.5+0.25j)"])]
    if kind == "url" and field in ("doi", "survey_d_o_i"):
        return [(v, v) for v in ("https://doi.org/10.5066/a1", "https://doi.org/10.1234/bcd-5")]
    if kind == "url":
        return [(v, v) for v in ("https://doi.org/10.5066/a1", "https://www.example.org/a/b?c=1")]
    if kind == "email":
        return [(v, v) for v in ("a.b@example.org", "mt@em.org")]
    if kind == "datum" and field == "value":     # a rating
        return [(v, v) for v in (1, 2, 3, 4, 5)]
    if kind == "datum":
        return [("WGS 84", "WGS 84"), ("NAD27", "NAD27"), ("WGS84", "WGS 84")]
    if kind == "models":
        return model_lists(choices)
    if kind == "strlist":
        return [(v, v) for v in (["Canada", "New Zealand"], ["USA", "Mexico", "Belize"])]
    return None


def model_lists(x):
    """Short lists of objects, each described by the fields that were set."""
    import random
    try:
        x()
        m = menu(x)
    except Exception:
        return None
    if not m:
        return None
    m = [e for e in m if e[1] not in ("models", "farray", "carray")]
    rng = random.Random(x.__name__)
    out = []
    for k in (1, 2):
        one = []
        for _ in range(k):
            d = {}
            for n, kind, p in (m if len(m) < 12 else rng.sample(m, 12)):
                d[n] = rng.choice([v for v, w in p if v == w and type(v) is type(w)] or [None])
            if "stage" in d:
                d["stage"] = len(one) + 1      # kept in the order of their stages
            if "stage" in d and one and one[0][1].get("name") == d["name"]:
                d["name"] += " 2"              # a channel has one filter of a name
            one.append([class_name(x), {n: v for n, v in d.items() if v is not None}])
        out.append((one, one))
    return out


def decode(kind, v):
    """What is assigned, from its JSON description."""
    if kind == "carray" and isinstance(v, list):
        return [complex(x) for x in v]
    if kind == "models" and isinstance(v, list):
        from .common import class_by_name
        out = []
        for c, d in v:
            o = class_by_name(c)()
            for n, x in d.items():
                o.update_attribute(n, x)
            out.append(o)
        return out
    return v


class Models(list):
    """Objects read back from a list; compared by the fields that were set."""


_MENU = {}


def menu(cls):
    """Every field of a class we can set: (dotted name, kind, pairs)."""
    if cls not in _MENU:
        out = []
        for name, kind, none, choices, own, field in leaves(cls):
            if kind == "other":
                continue
            if name == "fdsn.id" and cls.__name__ == "Station":
                continue       # names a station that has no name of its own
            p = pools(own, field, kind, none, choices)
            if p:
                out.append((name, kind, p))
        _MENU[cls] = out
    return _MENU[cls]


def plain(v):
    """A value as it can be compared: times as text, enumerations by value."""
    if v is None or isinstance(v, (str, bool, int, float)) and type(v) in (str, bool, int, float):
        return v
    n = type(v).__name__
    if n == "ndarray":
        return [str(x) for x in v.tolist()] if v.dtype.kind == "c" else v.tolist()
    if n in ("HttpUrl", "AnyUrl", "AnyHttpUrl", "Url"):
        return str(v)
    if isinstance(v, list) and v and all(model(type(x)) for x in v):
        return Models(v)
    if n in ("MTime", "MDate"):
        return str(v)
    if isinstance(v, enum.Enum):
        return v.value
    return v


def read(obj, name):
    for p in name.split("."):
        obj = getattr(obj, p)
    return plain(obj)


def submodels(cls, prefix="", depth=0):
    """(dotted name, class) of every nested object that is not a comment."""
    out = []
    for name, info in cls.model_fields.items():
        if info.deprecated is not None:
            continue
        k, none, x = kind_of(info)
        if k == "model" and x.__name__ != "Comment" and len(strip(info.annotation)[0]) == 1 and depth < 3:
            out.append((prefix + name, x))
            out += submodels(x, f"{prefix}{name}.", depth + 1)
    return out


def comments(cls):
    """Dotted names of the comments of a class that take a plain text."""
    return sorted({n[:-6] for n, k, p in menu(cls) if n.endswith("comments.value")})


def state(obj, names):
    return {n: read(obj, n) for n in names}


def same(a, b):
    """Equal in value and type; a list of objects equals its description."""
    if isinstance(a, Models) and not isinstance(b, Models):
        a, b = b, a
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, list) and isinstance(b, list) and not a and not b:
        return True
    if isinstance(b, Models):
        if isinstance(a, Models):
            return len(a) == len(b) and all(type(x) is type(y) and not differs(every(x), every(y)) for x, y in zip(a, b))
        try:
            return isinstance(a, list) and len(a) == len(b) and all(
                class_name(type(o)) == c and all(same(w, read(o, n)) for n, w in d.items()) for (c, d), o in zip(a, b))
        except (TypeError, ValueError, AttributeError):
            return False
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)
                                       and type(a).__name__ == type(b).__name__):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def differs(want, got):
    """First difference between two states, or None."""
    for n in want:
        if not same(want[n], got[n]):
            return f"{n} reads {got[n]!r}, expected {want[n]!r}"
    return None


def every(o):
    return {n: read(o, n) for n, _, _ in menu(type(o))}


BASE = {}


def warm():
    """Read every field of every class before anything else happens."""
    for c in all_classes():
        try:
            o = c()
        except Exception:
            continue
        try:
            BASE[class_name(c)] = state(o, [n for n, _, _ in menu(c)])
        except Exception:
            continue


def usable():
    """Classes one can make an empty object of, and that have fields to set."""
    return [n for n in BASE if BASE[n]]
