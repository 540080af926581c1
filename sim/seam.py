"""Python side of the libc seam (shim.c): one callback sees every operation
on the simulated disk and decides what happens to it."""
import ctypes
import errno
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "fsync", 6: "rename",
       7: "unlink", 8: "mkdir", 9: "rmdir", 10: "stat", 11: "opendir",
       12: "truncate", 13: "link", 14: "chmod"}
ERR = {k: getattr(errno, k) for k in
       ("ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "EINTR", "ENOENT")}

CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p,
                      ctypes.c_char_p, ctypes.c_int, ctypes.c_long)


def build():
    """Compile the shim once per source text; safe to call concurrently."""
    src = os.path.join(HERE, "shim.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"shim-{tag}.so")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=BUILD)
        os.close(fd)
        subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", tmp, src, "-ldl"],
                       check=True)
        os.replace(tmp, out)
    return out


class Seam:
    """The one instance per simulated process tree."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.sim_init  # raises if the shim is not preloaded
        self.lib.sim_time_now.restype = ctypes.c_longlong
        self.handler = None
        self._cb = CB(self._call)
        self.root = None

    def _call(self, op, p, p2, fd, arg):
        h = self.handler
        if h is None:
            return 0
        try:
            return h(OPS[op], os.fsdecode(p) if p else None,
                     os.fsdecode(p2) if p2 else None, fd, arg) or 0
        except BaseException:  # a harness error must not look like a result
            import traceback
            os.write(2, ("HARNESS " + traceback.format_exc()).encode())
            os._exit(99)

    def start(self, root):
        self.root = root
        self.lib.sim_init(root.encode(), self._cb)

    def on(self, handler):
        self.handler = handler
        self.lib.sim_active(1)

    def off(self):
        self.lib.sim_active(0)
        self.handler = None

    def clock(self, ns, tick=1000):
        self.lib.sim_time(1, ctypes.c_longlong(int(ns)), ctypes.c_longlong(int(tick)))

    def clock_off(self):
        self.lib.sim_time(0, ctypes.c_longlong(0), ctypes.c_longlong(0))

    def now(self):
        return self.lib.sim_time_now()
