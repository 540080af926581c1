"""C11: the elevation lookup survives the network."""
import json
import math
import os
import random
import re

from sim import net as simnet
from sim import sched
from sim.world import HarnessError, Violation, norm
from . import tfgen
from .common import LIBDIR, digest

ID = "C11"
TIMEOUT = 120
PATIENCE = 1800.0      # simulated seconds one lookup may take
FORMATS = ["edi", "xml", "zmm", "j", "avg"]
HTML = "<html><head><title>%s</title></head><body><h1>%s</h1>value: 12</body></html>"


# ------------------------------------------------------------------ generate
def gen_number(rng):
    """(JSON text, what it means)"""
    k = rng.random()
    if k < 0.35:
        v = round(rng.uniform(-430, 8848), rng.choice([0, 1, 2, 9]))
        return json.dumps(v), v
    if k < 0.5:
        v = rng.randint(-430, 8848)
        return json.dumps(v), float(v)
    if k < 0.7:
        v = round(rng.uniform(-430, 8848), 2)
        return json.dumps(str(v)), v
    if k < 0.8:
        t, v = rng.choice([('"0"', 0.0), ("-0.5e1", -5.0), ('" 12.5 "', 12.5), ("1e3", 1000.0), ('"-1000000"', -1000000.0), ("0", 0.0), ("8848.86", 8848.86), ('"1e2"', 100.0)])
        return t, v
    return rng.choice(["null", "true", "false", "[]", "[12]", "{}", '{"value": 3}', '"No data"', '""', '"12 m"', "NaN", "Infinity", "-Infinity", "1e999",
                       '"nan"', '"inf"', "1" + "0" * 400, '"1,200"', '"--5"', '"0x10"', '"\\u0000"']), None


def gen_body(rng):
    """(bytes as latin-1 text, the number in it or None)"""
    k = rng.random()
    loc = {"location": {"x": 1.5, "y": 2.5, "spatialReference": {"wkid": 4326}}, "locationId": 0}
    if k < 0.6:
        t, v = gen_number(rng)
        parts = [json.dumps(loc)[1:-1], f'"value": {t}', '"rasterId": 63573, "resolution": 1']
        if rng.random() < 0.25:     # a name beside the number, as UTF-8
            parts.append(json.dumps({"place": rng.choice(["Peña Blanca", "Zürich", "北方", "Montréal"])}, ensure_ascii=False)[1:-1].encode().decode("latin-1"))
        rng.shuffle(parts)
        body = "{" + ", ".join(parts) + "}"
        if rng.random() < 0.1:
            body = "\n\t " + body + "\r\n"
        if rng.random() < 0.1:
            body = body.replace(", ", ",\n    ")
        return body, v
    if k < 0.75:
        return rng.choice(["", " ", "null", "12.5", '"12.5"', "[]", "[1, 2]", '[{"value": 3}]', "{}", '{"Value": 3}', '{"values": 3}', '{"error": "busy"}', "true",
                           '{"message": "Invalid or missing input parameters."}', '{"statusCode": 500}', "call failed", "Invalid or missing input parameters.",
                           '{"value"}', '{"value": }', '{"value": 12.5', '{"value": 12.5}}', "{'value': 12.5}", '{"value": 12.5,}', "value=12.5"]), None
    if k < 0.85:
        return HTML % ("Sorry", "Sorry"), None
    if k < 0.92:
        r = random.Random(rng.randrange(1 << 30))
        return "".join(chr(r.randrange(256)) for _ in range(rng.choice([1, 3, 50, 3000]))), None
    if k < 0.95:
        return "[" * rng.choice([200, 1500, 5000, 100000]), None
    n = rng.choice([100, 900, 3000])
    return '{"value": ' + "[" * n + "]" * n + "}", None


def gen_reply(rng):
    """(whole reply as latin-1 text, the number the service answered with or None)"""
    body, v = gen_body(rng)
    raw = body.encode("latin-1", "replace").decode("latin-1")
    status = "200 OK"
    heads = ["Content-Type: application/json", "Server: sim"]
    k = rng.random()
    if k < 0.15:
        status = rng.choice(["404 Not Found", "500 Internal Server Error", "503 Service Unavailable", "400 Bad Request", "403 Forbidden", "429 Too Many Requests", "407 Proxy Authentication Required",
                             "401 Unauthorized", "304 Not Modified", "502 Bad Gateway", "418 teapot"])
        v = None
    elif k < 0.2:
        status, v, raw = "204 No Content", None, ""
    way = rng.choice(["length", "length", "close", "chunked"])
    if way == "length":
        heads.append(f"Content-Length: {len(raw)}")
        out = raw
    elif way == "chunked":
        heads.append("Transfer-Encoding: chunked")
        out, i = "", 0
        while i < len(raw):
            n = rng.choice([1, 5, 40, 1000])
            out += f"{len(raw[i:i + n]):x}\r\n{raw[i:i + n]}\r\n"
            i += n
        out += "0\r\n\r\n"
    else:
        out = raw
    rng.shuffle(heads)
    head = f"HTTP/1.1 {status}\r\n" + "".join(h + "\r\n" for h in heads) + "Connection: close\r\n\r\n"
    k = rng.random()
    if k < 0.04:
        return rng.choice(["", "\r\n", "garbage\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "SSH-2.0-OpenSSH_9.6\r\n", "HTTP/9.9 200 OK\r\n\r\n{}",
                           "HTTP/1.1 200 OK\r\n" + "X: y\r\n" * 200 + "\r\n{}", "HTTP/1.1 200 OK\r\nX: " + "y" * 70000 + "\r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n",
                           "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n"]), None, 0
    return head + out, v, len(head)


def status_ok(reply):
    return reply.startswith("HTTP/1.1 200 ")


def means(body):
    """The number in a reply body, None if there is none."""
    try:
        v = json.loads(body.encode("latin-1"))["value"]
        if isinstance(v, bool) or not isinstance(v, (int, float, str)):
            return None
        v = float(v)
        return v if math.isfinite(v) else None
    except (ValueError, KeyError, TypeError, RecursionError, OverflowError):
        return None


def gen_conn(rng):
    """One connection: (plan, the number it brings or None, whether it may also bring none)."""
    reply, v, nhead = gen_reply(rng)
    p = {"reply": reply, "chunks": rng.randrange(1 << 30)}
    either = False
    k = rng.random()
    if k < 0.45:
        if rng.random() < 0.1:
            p["dns"] = "two"
    elif k < 0.52:
        p["dns"], v = "fail", None
    elif k < 0.6:
        p["connect"], v = rng.choice(["refused", "unreachable", "timeout", "reset"]), None
    elif k < 0.66:
        p["tls"], v = rng.choice(["fail", "cert", "cut"]), None
    elif k < 0.7:
        p["send"], v = rng.choice(["reset", "pipe"]), None
    elif k < 0.85:
        p["cut"] = rng.choice([0, 1, 9, 12, nhead, max(0, len(reply) - 1), max(0, len(reply) - 2), rng.randrange(len(reply) + 1), rng.randrange(len(reply) + 1)])
        p["end"] = rng.choice(["close", "reset", "stall", "error"])
        if p["cut"] < len(reply):
            # the head alone says how much there should be; without it the text ends too early to be JSON
            lost = reply[p["cut"]:].strip(" \r\n")
            framed = "\r\nContent-Length:" in reply[:nhead] or "\r\nTransfer-Encoding:" in reply[:nhead]
            if lost and not framed and p["cut"] >= nhead and status_ok(reply):
                # nothing tells the client that something is missing: what arrived is the answer
                v, either = means(reply[nhead:p["cut"]]), True
            elif lost and not reply.endswith("0\r\n\r\n"):
                v = None
            else:
                either = True
        else:
            either = p["end"] != "close" and "Content-Length" not in reply
    else:
        p["gap"] = rng.choice([0.01, 0.5, 2.0, 20.0, 45.0, 400.0])
        p["chunks"] = rng.randrange(1 << 30)
        if p["gap"] > 2:
            either = True
        elif p["gap"] * len(reply) > 1500:      # byte by byte it takes its time
            p["gap"] = 0.001
    return p, v, either


def gen_lookup(rng):
    conns, v, either = [], None, False
    for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2, 12])):
        code = rng.choice(["301 Moved Permanently", "302 Found", "307 Temporary Redirect", "303 See Other", "308 Permanent Redirect"])
        conns.append({"reply": f"HTTP/1.1 {code}\r\nLocation: https://epqs.nationalmap.gov/v1/json?x=%X&y=%Y&n={len(conns)}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"})
    p, v, either = gen_conn(rng)
    if len(conns) > 5:
        v = None
    elif conns:
        either = True
    if rng.random() < 0.05:
        where = rng.choice(["https://nowhere.invalid/", "file:///etc/hostname", "ftp://nowhere.invalid/x", "/v1/json?again", "", "http://[bad", "gopher://x"])
        conns, v, either = [{"reply": f"HTTP/1.1 302 Found\r\nLocation: {where}\r\nContent-Length: 0\r\n\r\n"}], None, False
        p = {"reply": "HTTP/1.1 500 no\r\nContent-Length: 0\r\n\r\n"}
    conns.append(p)
    lat = rng.choice([rng.uniform(-89, 89), round(rng.uniform(24, 50), 3), 35.467, -0.001])
    lon = rng.choice([rng.uniform(-179, 179), round(rng.uniform(-125, -67), 3), -115.3355, 0.001])
    return {"do": "direct", "conns": conns, "value": v, "either": either, "lat": lat, "lon": lon, "as": rng.choice(["float", "float", "numpy", "text"])}


def generate(rng, tier, idx):
    plan = {"clock": 10**18 + rng.randrange(8 * 10**17), "tick": 0, "ops": []}
    plan["mode"] = "threads" if rng.random() < 0.15 else "one"
    for _ in range(rng.randint(2, 3) if plan["mode"] == "threads" else rng.randint(1, 8 if tier == "quick" else 25)):
        op = gen_lookup(rng)
        if plan["mode"] == "one" and rng.random() < 0.25:
            op["do"] = "file"
            s = tfgen.gen_spec(rng, small=True)
            s["elev"] = 0.0 if rng.random() < 0.8 else 123.5
            s["lat"], s["lon"] = op["lat"], op["lon"]
            s["station"] = s["station"].replace("_", "x")
            s.update(nans=0, zeros=0, comps="zt", err=True, azimuth="std", cov=False)
            op["spec"], op["fmt"] = s, rng.choice(FORMATS)
            op["via"] = rng.choice(["tf", "tf", "reader"])
            op["ask"] = rng.random() < 0.85
        plan["ops"].append(op)
    if plan["mode"] == "threads":
        x, pts = 0, []
        for _ in range(rng.randint(1, 60)):
            x += rng.randint(1, 12)
            pts.append([x, rng.randrange(len(plan["ops"]))])
        plan["preempt"], plan["first"] = pts, rng.randrange(3)
    return plan


# ------------------------------------------------------------------- execute
def number(v, what):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        import numpy as np
        if not isinstance(v, (np.floating, np.integer)):
            raise Violation("not a number", f"{what}: {v!r}")
    if not math.isfinite(v):
        raise Violation("not a number", f"{what}: {v!r}")


def expect(op, v, what):
    if op["value"] is not None and v == op["value"]:
        return "number"
    if (op["value"] is None or op["either"]) and v == 0:
        return "none"
    if op["value"] is None:
        raise Violation("number from nowhere", f"{what}: {v!r}, the service gave no number ({describe(op)})")
    raise Violation("wrong number", f"{what}: {v!r}, the service answered {op['value']!r} ({describe(op)})")


def describe(op):
    c = op["conns"][-1]
    return {k: (v if k != "reply" else v[-160:]) for k, v in c.items() if k != "chunks"}


def asked(net, op, what):
    """Every request was about this place."""
    for r in net.requests:
        line = r.split("\r\n")[0]
        if "again" in line or "HTTP/" not in line:
            continue
        nums = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", line.split(" HTTP/")[0])]
        for c in (op["lat"], op["lon"]):
            if not any(abs(x - c) < 1e-4 for x in nums) and "%X" not in line:
                raise Violation("asked about another place", f"{what}: {line}")


def patience(net, what, op):
    """Bounded waiting: a service that trickles may take its time, silence may not."""
    if net.forever:
        raise Violation("never returns", f"{what}: waits without limit for a connection that brings nothing")
    if net.waited > PATIENCE + sum((c.get("gap") or 0) * (len(c.get("reply", "")) + 2) for c in op["conns"]):
        raise Violation("takes too long", f"{what}: waited {net.waited:.0f} s")


def place(op):
    lat, lon = op["lat"], op["lon"]
    if op["as"] == "numpy":
        import numpy as np
        return np.float64(lat), np.float64(lon)
    return (lat, lon)


def lookup(op, what):
    from mt_metadata.transfer_functions.io.tools import get_nm_elev
    try:
        return get_nm_elev(*place(op))
    except Exception as e:
        raise Violation("raised", f"{what}: {type(e).__name__}: {str(e)[:150]} ({describe(op)})")


def write(op, world, j):
    """A file of a transfer function; its elevation is as described."""
    import shutil
    fn = world.path("files", f"f{j}.{op['fmt']}")
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    if op["fmt"] in ("j", "avg"):
        from .files import DATA, shipped
        have = [n for f, n in shipped() if f == op["fmt"]]
        shutil.copyfile(os.path.join(DATA, have[op["spec"]["dseed"] % len(have)]), fn)
        return fn
    tf = tfgen.build(op["spec"])
    tf.write(fn, file_type=op["fmt"])
    return fn


def read(fn, fmt, via, ask):
    """(latitude, longitude, elevation, numbers)"""
    from mt_metadata.transfer_functions.core import TF
    tf = TF(fn)
    if via == "tf":
        tf.read(get_elevation=ask)
        return tf.latitude, tf.longitude, tf.elevation, numbers(tf)
    from mt_metadata.transfer_functions.io.edi import EDI
    from mt_metadata.transfer_functions.io.emtfxml import EMTFXML
    from mt_metadata.transfer_functions.io.jfiles import JFile
    from mt_metadata.transfer_functions.io.zfiles import ZMM
    from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg
    o = {"edi": EDI, "xml": EMTFXML, "zmm": ZMM, "j": JFile, "avg": ZongeMTAvg}[fmt]()
    if fmt == "avg":
        o = ZongeMTAvg(fn=fn)
        o.read(get_elevation=ask)
    else:
        o.read(fn, get_elevation=ask)
    l = o.station_metadata.location
    return l.latitude, l.longitude, l.elevation, None


def numbers(tf):
    o = tfgen.observe(tf)
    return {k: v for k, v in o.items() if k != "elev"}


def execute(plan, world):
    net = simnet.install(world)
    count = {"lookups": 0, "answered": 0, "files": 0, "connections": 0, "threads": 0}
    trail = []
    if plan["mode"] == "threads":
        threads(plan, world, net, count, trail)
    else:
        for j, op in enumerate(plan["ops"]):
            what = f"lookup {j} ({op['do']})"
            if op["do"] == "direct":
                net.next(op["conns"])
                v = lookup(op, what)
                patience(net, what, op)
                number(v, what)
                got = expect(op, v, what)
                asked(net, op, what)
            else:
                got = from_file(op, world, net, j, what)
                count["files"] += 1
            count["lookups"] += 1
            count["answered"] += got == "number"
            count["connections"] += net.conns
            trail.append([op["do"], op.get("fmt"), got, net.conns, [k for k in ("dns", "connect", "tls", "send", "cut", "end", "gap") if op["conns"][-1].get(k)]])
            if net.open:
                import gc
                gc.collect()
                if net.open:
                    raise Violation("connection left open", f"{what}: {net.open}")
    for k, v in net.fired.items():
        world.stats["fired"][k] = world.stats["fired"].get(k, 0) + v
    d = digest([trail, net.fired, round(net.waited, 3)])
    return {"count": count, "digest": d, "state": d, "states": [digest(t) for t in trail], "nontrivial": count["lookups"] > 0, "evals": max(1, count["lookups"]),
            "sample": {"mode": plan["mode"], "ops": trail[:8]}}


def from_file(op, world, net, j, what):
    fn = write(op, world, j)
    net.next(op["conns"])
    lat, lon, elev, ref = read(fn, op["fmt"], op["via"], False)
    if net.conns or net.log and net.requests:
        raise Violation("asked without being told to", f"{what}: {net.requests}")
    net.log.clear()
    net.next(op["conns"])
    try:
        la, lo, v, got = read(fn, op["fmt"], op["via"], op["ask"])
    except Exception as e:
        raise Violation("raised", f"{what} {op['fmt']}: {type(e).__name__}: {str(e)[:150]} ({describe(op)})")
    patience(net, what, op)
    if (la, lo) != (lat, lon):
        raise Violation("position changed", f"{what} {op['fmt']}: {lat}, {lon} became {la}, {lo}")
    if ref is not None:
        for k in ref:
            import numpy as np
            a, b = ref[k], got[k]
            if (not np.array_equal(a, b, equal_nan=True)) if isinstance(a, np.ndarray) else a != b:
                raise Violation("lookup changed the data", f"{what} {op['fmt']}: {k}")
    if not op["ask"] or elev not in (0, None):
        if net.log:
            raise Violation("asked without being told to", f"{what} {op['fmt']}: {net.log}")
        if v != elev:
            raise Violation("elevation changed", f"{what} {op['fmt']}: {elev} became {v}")
        return "not asked"
    if lat == 0 or lon == 0:
        return "no place"
    number(v, what)
    r = expect(op, v, f"{what} {op['fmt']}")
    asked(net, dict(op, lat=lat, lon=lon), what)
    return r


def threads(plan, world, net, count, trail):
    """Several lookups at once, each with a service of its own."""
    S = sched.Scheduler(plan["preempt"], LIBDIR)
    ops = plan["ops"]
    nets = []

    class Many:
        """Each task has a service of its own."""
        def mine(self):
            return nets[S.cur or 0]
    for op in ops:
        n = simnet.Net(world)
        n.next(op["conns"])
        nets.append(n)
    simnet.NET[0] = Many()
    world.sched = S
    try:
        res = S.run([lambda op=op, j=j: lookup(op, f"lookup {j}") for j, op in enumerate(ops)], plan["first"])
    except TimeoutError as e:
        raise HarnessError(str(e))
    finally:
        world.sched = None
        simnet.NET[0] = net
    for j, (op, r) in enumerate(zip(ops, res)):
        what = f"lookup {j} of {len(ops)} at once"
        if r[0] != "ok":
            raise Violation("raised", f"{what}: {r[1:]}")
        patience(nets[j], what, op)
        number(r[1], what)
        trail.append(["thread", expect(op, r[1], what), nets[j].conns])
        asked(nets[j], op, what)
        for k, v in nets[j].fired.items():
            net.fired[k] = net.fired.get(k, 0) + v
    count["lookups"] += len(ops)
    count["threads"] += len(ops)
    trail.append(["order", [t[1:] for t in S.trace][:40]])


def warm():
    from . import c07
    c07.warm()
    import http.client
    import urllib.request
    import ssl
    ssl.create_default_context()
