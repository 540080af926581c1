"""A network with one elevation service, below the socket module.

Everything above is real: urllib (or whatever the library uses), http.client,
the TLS context up to wrap_socket.  A plan per connection says what happens:

  {"dns": "ok"|"fail"|"two", "connect": "ok"|"refused"|"unreachable"|"timeout"|"reset",
   "tls": "ok"|"fail"|"cert"|"cut", "send": "ok"|"reset"|"pipe",
   "reply": bytes as latin-1 text, "chunks": seed for the sizes in which it arrives,
   "end": "close"|"reset"|"stall"|"error", "cut": at which byte the reply ends, or None,
   "gap": simulated seconds between chunks}
"""
import errno
import io
import random
import socket
import ssl

REAL = {}


class Net:
    def __init__(self, world):
        self.world = world
        self.plans = []        # one per connection, the last is used again
        self.log = []
        self.requests = []
        self.waited = 0.0
        self.forever = 0
        self.fired = {}
        self.open = 0

    def mine(self):
        return self

    # ---- what happens next
    def next(self, plans):
        self.plans = list(plans)
        self.waited = 0.0
        self.forever = 0
        self.requests = []
        self.conns = 0

    def plan(self):
        p = self.plans.pop(0) if len(self.plans) > 1 else self.plans[0] if self.plans else {"dns": "fail"}
        return p

    def fire(self, what):
        k = f"net:{what}"
        self.fired[k] = self.fired.get(k, 0) + 1

    def wait(self, seconds, timeout):
        """Simulated time passes; True when the caller's timeout ran out first."""
        if seconds is None:        # nothing ever comes
            if timeout is None:
                self.forever += 1
                seconds = 10.0 ** 7
            else:
                seconds = timeout
            self.pass_time(seconds)
            return True
        if timeout is not None and seconds > timeout:
            self.pass_time(timeout)
            return True
        self.pass_time(seconds)
        return False

    def pass_time(self, s):
        self.waited += s
        if s:
            self.world.set_clock(self.world.seam.now() + int(s * 10**9), 0)
        if self.world.sched is not None:
            self.world.sched.io_point("net")


NET = [None]


class SimSocket:
    """As much of a socket as clients use."""
    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.net = NET[0].mine()
        self.family, self.type, self.proto = family, type, proto
        self.timeout = socket.getdefaulttimeout()
        self.out = b""
        self.buf = None
        self.at = 0
        self.p = None
        self.closed = False
        self.refs = 0
        self.net.open += 1

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, *a):
        pass

    def fileno(self):
        return -1 if self.closed else 9999

    def getpeername(self):
        return ("192.0.2.1", 443)

    def getpeercert(self, binary_form=False):
        return {}

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("sim", "TLSv1.3", 256)

    def selected_alpn_protocol(self):
        return None

    def shutdown(self, how):
        pass

    def do_handshake(self):
        pass

    def detach(self):
        return -1

    def connect(self, addr):
        net = self.net
        if addr[0] == "192.0.2.9":      # the first of two addresses never works
            net.fire("address dead")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        self.p = net.plan()
        c = self.p.get("connect", "ok")
        net.conns += 1
        if c == "ok":
            net.wait(self.p.get("gap", 0) or 0, self.timeout)
            return
        net.fire(f"connect {c}")
        if c == "timeout":
            net.wait(None, self.timeout)
            raise TimeoutError(errno.ETIMEDOUT, "timed out")
        raise {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
               "unreachable": OSError(errno.ENETUNREACH, "Network is unreachable"),
               "reset": ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")}[c]

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or 1
        return 0

    def sendall(self, data, flags=0):
        s = self.p.get("send", "ok")
        if s != "ok":
            self.net.fire(f"send {s}")
            raise (ConnectionResetError(errno.ECONNRESET, "Connection reset by peer") if s == "reset" else BrokenPipeError(errno.EPIPE, "Broken pipe"))
        self.out += bytes(data)
        if b"\r\n\r\n" in self.out and self.buf is None:
            self.net.requests.append(self.out.decode("latin-1"))
            r = self.p.get("reply", "")
            self.buf = r.encode("latin-1")
            if self.p.get("cut") is not None:
                self.net.fire("reply cut")
                self.buf = self.buf[:self.p["cut"]]
            self.rng = random.Random(self.p.get("chunks", 0))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv_into(self, b, nbytes=None, flags=0):
        n = nbytes or len(b)
        d = self.recv(n)
        b[:len(d)] = d
        return len(d)

    def recv(self, n, flags=0):
        net = self.net
        left = len(self.buf or b"") - self.at
        if left > 0 and n > 0:
            if net.wait(self.p.get("gap", 0) or 0, self.timeout):
                net.fire("read timeout")
                raise TimeoutError("The read operation timed out")
            k = min(n, left, self.rng.choice([1, 2, 7, 64, 1024, 1 << 16]))
            d = self.buf[self.at:self.at + k]
            self.at += k
            return d
        e = self.p.get("end", "close")
        if e == "close":
            return b""
        net.fire(f"end {e}")
        if e == "stall":
            net.wait(None, self.timeout)
            raise TimeoutError("The read operation timed out")
        if e == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        raise OSError(errno.EIO, "Input/output error")

    read = recv

    def makefile(self, mode="r", buffering=None, **kw):
        self.refs += 1
        raw = Raw(self)
        return io.BufferedReader(raw) if "b" in mode else io.TextIOWrapper(io.BufferedReader(raw))

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.open -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(b)


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    net = NET[0].mine()
    p = net.plans[0] if net.plans else {"dns": "fail"}
    d = p.get("dns", "ok")
    net.log.append(["dns", str(host)])
    if d == "fail" or "nowhere" in str(host):
        net.fire("dns fail")
        if len(net.plans) > 1:
            net.plans.pop(0)
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
    out = [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("192.0.2.1", port))]
    if d == "two":
        out.insert(0, (socket.AF_INET, socket.SOCK_STREAM, 6, "", ("192.0.2.9", port)))
    return out


def wrap_socket(ctx, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True, server_hostname=None, session=None):
    net = NET[0].mine()
    t = sock.p.get("tls", "ok")
    if t != "ok":
        net.fire(f"tls {t}")
        sock.close()
        if t == "cert":
            raise ssl.SSLCertVerificationError(1, "certificate verify failed")
        if t == "cut":
            raise ssl.SSLEOFError(8, "EOF occurred in violation of protocol")
        raise ssl.SSLError(1, "wrong version number")
    return sock


def install(world):
    """From here on this process has no other network."""
    net = Net(world)
    NET[0] = net
    REAL.setdefault("socket", socket.socket)
    socket.socket = SimSocket
    socket.getaddrinfo = getaddrinfo
    ssl.SSLContext.wrap_socket = wrap_socket
    import os
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    import urllib.request
    urllib.request._opener = None
    return net
