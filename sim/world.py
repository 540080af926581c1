"""One simulated run: a disk, a clock, processes that can die, and a log.

A World lives inside one forked "run" process.  `process()` forks a simulated
process: it sees the disk, may be killed at any file operation, and whatever it
had not made durable may be lost or torn when it dies.
"""
import errno
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import time
import traceback

from .seam import ERR, Seam

WRITE_OPS = {"open", "write", "close", "fsync", "rename", "unlink", "mkdir",
             "rmdir", "truncate", "link", "chmod"}


class HarnessError(Exception):
    """The simulator itself misbehaved; never reported as a violation."""


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class SimHang(BaseException):
    """Step budget used up."""


def norm(text, root):
    return str(text).replace(root, "<DISK>")


class Faults:
    """What the disk does to one process: a list of faults, each
    {"at": index of the operation among those that `match`,
     "match": "any"|"w" (mutating)|<op name>, "do": errno name | "crash" |
     "short" | "stall", "sticky": bool, "path": optional path suffix}."""

    def __init__(self, plan, world):
        self.plan = [dict(f) for f in plan]
        self.count = {}
        self.world = world
        self.fired = []
        self.stuck = {}

    def _match(self, f, op, path, arg):
        if f.get("path") and not (path or "").endswith(f["path"]):
            return False
        m = f.get("match", "any")
        if m == "any":
            return op not in ("stat",)
        if m == "w":
            if op == "open":
                return bool(arg & (os.O_WRONLY | os.O_RDWR))
            return op in WRITE_OPS
        return m == op

    def decide(self, op, path, arg, writable):
        out = 0
        for i, f in enumerate(self.plan):
            m = f.get("match", "any")
            if m == "w" and op in ("close", "fsync") and not writable:
                continue
            if not self._match(f, op, path, arg):
                continue
            n = self.count.get(i, 0)
            self.count[i] = n + 1
            hit = n == f["at"] or (f.get("sticky") and n > f["at"])
            if not hit:
                continue
            do = f["do"]
            if do == "short" and not (op in ("write", "read") and arg > 1):
                continue
            if do == "EINTR" and not (op in ("write", "read", "open") and n == f["at"]):
                continue
            if n == f["at"]:
                self.fired.append([do, "open-read" if op == "open" and not arg & (os.O_WRONLY | os.O_RDWR) else op])
            if do == "crash":
                return "crash"
            if do == "short":
                out = max(1, int(arg * f.get("frac", 0.5)))
                continue
            return -ERR[do]
        return out


class World:
    def __init__(self, root, seam=None):
        self.root = root
        self.seam = seam or Seam()
        os.makedirs(root, exist_ok=True)
        self.seam.start(root)
        self.journal = {}     # path -> content before the un-synced change (None: absent)
        self.ops = []         # (op, relative path) seen by the current process
        self.opcount = {}
        self.faults = Faults([], self)
        self.wfds = set()
        self.listseed = 0
        self.sched = None
        self.crash_fd = None
        self.ev_fd = None
        self.stats = {"fired": {}, "ops": 0, "crashes": 0, "processes": 0, "sim_ns": 0}
        self.track = True
        self.keep_ops = False

    # ---- the disk -------------------------------------------------------
    def _handler(self, op, path, path2, fd, arg):
        if path and "__path_hook__" in path:
            return 0            # Python looking for a module in the current folder
        self.stats["ops"] += 1
        self.opcount[op] = self.opcount.get(op, 0) + 1
        if self.keep_ops:
            self.ops.append((op, norm(path, self.root), norm(path2, self.root) if path2 else None,
                             bool(op == "open" and arg & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))))
        if self.sched is not None:
            self.sched.io_point(op)
        writable = fd in self.wfds
        d = self.faults.decide(op, path, arg, writable)
        if d == "crash":
            if op == "write" and arg > 1:
                pass
            self._die(op)
        if d < 0 and not (op == "close"):
            return d
        if self.track:
            if op == "open" and arg & (os.O_WRONLY | os.O_RDWR):
                self._remember(path)
            elif op in ("rename", "link"):
                self._remember(path)
                self._remember(path2)
            elif op in ("unlink", "truncate"):
                self._remember(path)
            elif op == "fsync":
                self.journal.pop(path, None)
        if op in ("write", "truncate"):
            self.wfds.add(fd)
        if op == "close":
            self.wfds.discard(fd)
            return d
        if op == "opendir":
            return self.listseed
        return d

    def _remember(self, path):
        if path is None or path in self.journal or not path.startswith(self.root):
            return
        try:
            with open(path, "rb") as f:
                self.journal[path] = f.read()
        except OSError:
            self.journal[path] = None

    def _die(self, op):
        msg = pickle.dumps(("crash", op, self.journal, self.faults.fired, self.stats))
        if self.ev_fd is not None:
            os.close(self.ev_fd)
        _send(self.crash_fd, msg)
        os._exit(137)

    def disk_on(self, faults=(), listseed=0):
        self.faults = Faults(faults, self)
        self.opcount = {}
        self.ops = []
        self.listseed = listseed
        self.seam.on(self._handler)

    def disk_off(self):
        self.seam.off()
        for do, op in self.faults.fired:
            k = f"{do}@{op}"
            self.stats["fired"][k] = self.stats["fired"].get(k, 0) + 1
        n = len(self.faults.fired)
        self.faults = Faults([], self)
        return n

    # ---- the clock ------------------------------------------------------
    def set_clock(self, ns, tick=1000):
        self.seam.clock(ns, tick)

    # ---- processes ------------------------------------------------------
    def process(self, fn, *args, faults=(), tear=None, listseed=0, timeout=300, clock=None):
        """Run fn(*args) as a simulated process.  Returns ("ok", value),
        ("raise", type name, text) or ("crash", op).  On a crash the disk is
        torn according to `tear` (a random.Random seed, or None: all landed)."""
        r, w = os.pipe()
        self.stats["processes"] += 1
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.crash_fd = w
                self.journal = {}
                self.stats = {"fired": {}, "ops": 0, "crashes": 0, "processes": 0, "sim_ns": 0}
                self.disk_on(faults, listseed)
                try:
                    res = ("ok", fn(*args))
                except Violation as v:
                    res = ("violation", v.kind, v.detail)
                except HarnessError:
                    raise
                except BaseException as e:
                    res = ("raise", type(e).__name__, norm(e, self.root)[:400])
                opc = dict(self.opcount)
                fired = list(self.faults.fired)
                self.disk_off()
                _send(w, pickle.dumps(("done", res, self.journal, fired, self.stats, opc)))
                os._exit(0)
            except BaseException:
                os.write(2, ("HARNESS " + traceback.format_exc()).encode())
                os._exit(99)
        os.close(w)
        msg, status = _recv(r, pid, timeout)
        if msg is None:
            raise HarnessError(f"simulated process ended with status {status} and no report")
        got = pickle.loads(msg)
        for k, v in got[4]["fired"].items():
            self.stats["fired"][k] = self.stats["fired"].get(k, 0) + v
        self.stats["ops"] += got[4]["ops"]
        self.stats["processes"] += got[4]["processes"]
        if got[0] == "crash":
            for do, op in got[3]:
                k = f"{do}@{op}"
                self.stats["fired"][k] = self.stats["fired"].get(k, 0) + 1
            self.stats["crashes"] += 1
            self.tear(got[2], tear)
            self.last_opcount = None
            return ("crash", got[1])
        self.last_opcount = got[5]
        self.last_fired = got[3]
        if got[1][0] == "violation":
            raise Violation(got[1][1], got[1][2])
        return got[1]

    def tear(self, journal, seed):
        """What a crash leaves of changes that were never forced to disk."""
        if seed is None:
            return
        rng = random.Random(seed)
        for path in sorted(journal):
            old = journal[path]
            if os.path.isdir(path):
                continue
            try:
                with open(path, "rb") as f:
                    new = f.read()
            except FileNotFoundError:
                new = None
            mode = rng.choice(["keep", "keep", "prefix", "zeros", "empty", "old", "block"])
            if mode == "keep":
                pass
            elif mode == "old":
                if old is None:
                    if new is not None:
                        os.unlink(path)
                else:
                    with open(path, "wb") as f:
                        f.write(old)
            elif new:
                n = len(new)
                cut = rng.randrange(n + 1)
                if mode == "prefix":
                    data = new[:cut]
                elif mode == "zeros":
                    data = new[:cut] + bytes(n - cut)
                elif mode == "block":
                    cut = cut // 512 * 512
                    data = new[:cut] + bytes(min(512, n - cut)) + new[cut + 512:]
                else:
                    data = b""
                with open(path, "wb") as f:
                    f.write(data)
            k = f"tear:{mode}"
            self.stats["fired"][k] = self.stats["fired"].get(k, 0) + 1

    # ---- looking at the disk from outside the simulation -----------------
    def snapshot(self, sub=""):
        out = {}
        top = os.path.join(self.root, sub) if sub else self.root
        for d, ds, fs in os.walk(top):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), self.root) + "/"] = b""
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out

    def path(self, *parts):
        return os.path.join(self.root, *parts)


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd, pid, timeout):
    """Read one length-prefixed message; kill pid on timeout."""
    end = time.monotonic() + timeout
    buf = b""
    need = None
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None, "timeout"
            rd, _, _ = select.select([fd], [], [], left)
            if not rd:
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", buf[:8])[0]
            if need is not None and len(buf) >= 8 + need:
                break
    finally:
        os.close(fd)
    _, status = os.waitpid(pid, 0)
    if need is None or len(buf) < 8 + need:
        return None, status
    return buf[8:8 + need], status


# ---- several processes at once ------------------------------------------
def run_processes(world, fns, choices, faults=None, tear=None, timeout=300, listseed=0):
    """Fork every fn as a process; all of them stop before each disk operation
    and go on one at a time, as `choices` (consumed in order, then 0) decides.
    Returns one result per process, as World.process does."""
    n = len(fns)
    faults = faults or [[] for _ in fns]
    kids = []
    for i, fn in enumerate(fns):
        go_r, go_w = os.pipe()
        ev_r, ev_w = os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for fd in (go_w, ev_r, res_r):
                    os.close(fd)
                for k in kids:
                    for fd in (k["go"], k["ev"], k["res"]):
                        os.close(fd)
                world.crash_fd = res_w
                world.ev_fd = ev_w
                world.journal = {}
                world.stats = {"fired": {}, "ops": 0, "crashes": 0, "processes": 0, "sim_ns": 0}

                class Gate:
                    def io_point(self, op):
                        os.write(ev_w, b"o")
                        os.read(go_r, 1)
                os.read(go_r, 1)
                world.sched = Gate()
                world.disk_on(faults[i], listseed)
                try:
                    res = ("ok", fn())
                except Violation as v:
                    res = ("violation", v.kind, v.detail)
                except BaseException as e:
                    res = ("raise", type(e).__name__, norm(e, world.root)[:400])
                fired = list(world.faults.fired)
                world.disk_off()
                os.close(ev_w)
                _send(res_w, pickle.dumps(("done", res, world.journal, fired, world.stats, {})))
                os._exit(0)
            except BaseException:
                os.write(2, ("HARNESS " + traceback.format_exc()).encode())
                os._exit(99)
        os.close(go_r)
        os.close(ev_w)
        os.close(res_w)
        kids.append({"pid": pid, "go": go_w, "ev": ev_r, "res": res_r, "alive": True})
        world.stats["processes"] += 1
    ci = 0
    order = []
    end = time.monotonic() + timeout
    alive = list(range(n))
    while alive:
        c = choices[ci] if ci < len(choices) else 0
        ci += 1
        i = alive[c % len(alive)]
        order.append(i)
        os.write(kids[i]["go"], b"g")
        rd, _, _ = select.select([kids[i]["ev"]], [], [], max(0.1, end - time.monotonic()))
        if not rd:
            for k in kids:
                os.kill(k["pid"], signal.SIGKILL)
            raise HarnessError("simulated process stalled")
        if os.read(kids[i]["ev"], 1) == b"":
            alive.remove(i)
    out = []
    for i, k in enumerate(kids):
        os.close(k["go"])
        os.close(k["ev"])
        msg, status = _recv(k["res"], k["pid"], 30)
        if msg is None:
            raise HarnessError(f"simulated process ended with {status}")
        got = pickle.loads(msg)
        st = got[4]
        for kk, v in st["fired"].items():
            world.stats["fired"][kk] = world.stats["fired"].get(kk, 0) + v
        world.stats["ops"] += st["ops"]
        if got[0] == "crash":
            for do, op in got[3]:
                kk = f"{do}@{op}"
                world.stats["fired"][kk] = world.stats["fired"].get(kk, 0) + 1
            world.stats["crashes"] += 1
            world.tear(got[2], tear)
            out.append(("crash", got[1]))
        else:
            if got[1][0] == "violation":
                raise Violation(got[1][1], got[1][2])
            out.append(got[1])
    world.order = order
    return out
