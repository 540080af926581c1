"""Interpreters that started differently: another hash seed, another time zone, another clock at import.

A worker keeps a few; each answers requests in a forked child, so that every
request starts from the same freshly imported state.
"""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Helper:
    def __init__(self, prop, hashseed, tz, clock):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TZ=tz)
        self.p = subprocess.Popen([sys.executable, "-X", "utf8", os.path.join(HERE, "helper.py"), prop, str(clock)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.hashseed, self.tz, self.clock = hashseed, tz, clock

    def ready(self):
        if _get(self.p.stdout) != "ready":
            raise RuntimeError("helper did not start")

    def ask(self, key, request):
        _put(self.p.stdin, (key, request))
        while True:
            got = _get(self.p.stdout)
            if got is None:
                raise RuntimeError("helper is gone")
            if got[0] == key:
                return got[1]


def _put(f, x):
    d = pickle.dumps(x)
    f.write(struct.pack("<Q", len(d)) + d)
    f.flush()


def _get(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    d = f.read(struct.unpack("<Q", h)[0])
    return pickle.loads(d)


def main():
    prop, clock = sys.argv[1], int(sys.argv[2])
    sys.path.insert(0, os.path.dirname(HERE))
    sys.dont_write_bytecode = True
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 0)
    from sim.seam import Seam
    seam = Seam()
    seam.clock(clock, 1000)      # what is imported sees this clock
    import importlib
    from sim import worker
    worker.warm()
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    mod.warm_helper()
    seam.clock_off()
    import gc
    gc.collect()
    gc.freeze()
    _put(out, "ready")
    import traceback
    while True:
        got = _get(inp)
        if got is None:
            return
        key, request = got
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = ("ok", mod.remote(request))
            except BaseException:
                res = ("harness", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        _put(out, (key, pickle.loads(d) if d else ("harness", "helper child died")))


if __name__ == "__main__":
    main()
