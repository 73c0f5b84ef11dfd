"""The real server on a stand-in for the XCM library, for demonstrations.

Sockets are objects in memory, each with an eventfd which is readable while
the socket is ready for what the server waits for.  The clock is manual.
"""
import collections
import errno
import json
import os
import select
import sys
import time
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

NOW = [1600000000.0]
time.time = lambda: NOW[0]
time.monotonic = lambda: NOW[0]


def err(no):
    return OSError(no, os.strerror(no))


class Sock:
    def __init__(self):
        self.efd = os.eventfd(0, os.EFD_NONBLOCK)
        self.target = 0
        self.closed = 0

    def chk(self):
        assert not self.closed, "socket used after close"

    def upd(self):
        if self.closed:
            return
        try:
            os.eventfd_read(self.efd)
        except BlockingIOError:
            pass
        if self.ready():
            os.eventfd_write(self.efd, 1)

    def fileno(self):
        self.chk()
        return self.efd

    def set_target(self, c):
        self.chk()
        self.target = c
        self.upd()

    def finish(self):
        self.chk()

    def set_blocking(self, v):
        pass

    def is_blocking(self):
        return False

    def set_attr(self, n, v):
        self.chk()

    def close(self):
        self.chk()
        self.closed = 1
        os.close(self.efd)
        ALL.discard(self)


ALL = set()


class Conn(Sock):
    """The server's end; the demonstration plays the client."""

    def __init__(self, addr="ux:c", ski=None):
        Sock.__init__(self)
        self.addr, self.ski = addr, ski
        self.inbox = collections.deque()
        self.out = []
        self.blocked = None       # None, or the number of sends left
        ALL.add(self)

    def ready(self):
        return bool((self.target & 1 and self.inbox) or
                    (self.target & 2 and self.blocked != 0))

    def receive(self):
        self.chk()
        if not self.inbox:
            raise err(errno.EAGAIN)
        m = self.inbox[0]
        if m is None:
            return b""
        if isinstance(m, int):
            raise err(m)
        self.inbox.popleft()
        self.upd()
        return m

    def send(self, m):
        self.chk()
        if self.inbox and isinstance(self.inbox[0], int):
            raise err(errno.EPIPE)
        if self.blocked is not None:
            if self.blocked == 0:
                raise err(errno.EAGAIN)
            self.blocked -= 1
        self.out.append(json.loads(m))
        self.upd()

    def get_attr(self, n):
        self.chk()
        if n == "xcm.remote_addr":
            return self.addr
        if n == "xcm.transport":
            return self.addr.split(":")[0]
        if n == "tls.peer_subject_key_id" and self.ski:
            return self.ski
        raise err(errno.ENOENT)


class Listener(Sock):
    def __init__(self, addr, attrs):
        Sock.__init__(self)
        self.addr, self.attrs = addr, attrs
        self.pending = collections.deque()
        LISTENERS[addr] = self

    def ready(self):
        return bool(self.target & 4 and self.pending)

    def accept(self, attrs={}):
        self.chk()
        if not self.pending:
            raise err(errno.EAGAIN)
        c = self.pending.popleft()
        self.upd()
        if isinstance(c, int):
            raise err(c)
        return c

    def get_attr(self, n):
        raise err(errno.ENOENT)


LISTENERS = {}

x = types.ModuleType("paf.xcm")
x.error = OSError
x.SO_RECEIVABLE, x.SO_SENDABLE, x.SO_ACCEPTABLE, x.NONBLOCK = 1, 2, 4, 1
x.Socket, x.ConnectionSocket, x.ServerSocket = Sock, Conn, Listener
x.server = lambda addr, attrs={}: Listener(addr, attrs)
CONNECT = []


def _connect(addr, flags=0, attrs={}):
    return CONNECT.pop(0)


x.connect = _connect
import paf
sys.modules["paf.xcm"] = x
paf.xcm = x
import paf.logging
import logging
logging.disable(logging.CRITICAL)
import paf.conf
import paf.eventloop
import paf.server


class World:
    """conf: a configuration document"""

    def __init__(self, conf=None):
        conf = conf or {"domains": [{"sockets": ["ux:a"]}]}
        c = paf.conf.Conf()
        paf.conf.populate(c, conf)
        self.loop = paf.eventloop.EventLoop()
        self.servers = [paf.server.create(
            d.name, d.sockets, c.resources.user.resources,
            c.resources.total.resources, d.proto_version_limit, d.idle_limit,
            self.loop) for d in c.domains]
        self.rfd = os.eventfd(1, os.EFD_NONBLOCK)
        self.ctl = paf.eventloop.Source()
        self.ctl.set_fd(self.rfd, select.EPOLLIN)
        self.loop.add(self.ctl, self.loop.stop)

    def settle(self, n=8):
        for _ in range(n):
            self.loop.run()

    def advance(self, t, step=0.125):
        end = NOW[0] + t
        while NOW[0] < end:
            NOW[0] = min(end, NOW[0] + step)
            self.settle(2)

    def connect(self, client_id=None, sock="ux:a", addr="ux:c", ski=None,
                vers=(2, 3), want="complete"):
        c = Client(self, addr, ski)
        LISTENERS[sock].pending.append(c.s)
        LISTENERS[sock].upd()
        self.settle()
        if client_id is not None:
            r = c.call("hello", **{"client-id": client_id,
                                   "protocol-minimum-version": vers[0],
                                   "protocol-maximum-version": vers[1]})
            c.hello = r
            if want:
                assert r[-1]["msg-type"] == want, r
        return c


class Client:
    def __init__(self, w, addr="ux:c", ski=None):
        self.w = w
        self.s = Conn(addr, ski)
        self.ta = 0

    def raw(self, data, settle=True):
        self.s.inbox.append(data)
        self.s.upd()
        if settle:
            self.w.settle()

    def request(self, cmd, ta=None, settle=True, **f):
        if ta is None:
            ta = self.ta
            self.ta += 1
        m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": "request"}
        m.update({k.replace("_", "-"): v for k, v in f.items()})
        self.raw(json.dumps(m).encode(), settle)
        return ta

    def inform(self, cmd, ta, **f):
        m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": "inform"}
        m.update({k.replace("_", "-"): v for k, v in f.items()})
        self.raw(json.dumps(m).encode())

    def of(self, ta):
        return [m for m in self.s.out if m["ta-id"] == ta]

    def call(self, cmd, **f):
        """-> the responses"""
        return self.of(self.request(cmd, **f))

    def ok(self, cmd, **f):
        r = self.call(cmd, **f)
        assert r and r[-1]["msg-type"] in ("complete", "accept"), (cmd, f, r)
        return r

    def fails(self, reason, cmd, **f):
        r = self.call(cmd, **f)
        assert r and r[-1]["msg-type"] == "fail", (cmd, f, r)
        assert r[-1]["fail-reason"] == reason, r

    def publish(self, sid, gen=1, props=None, ttl=60):
        return self.ok("publish", service_id=sid, generation=gen,
                       service_props=props or {}, ttl=ttl)

    def subscribe(self, sub_id, **f):
        ta = self.request("subscribe", subscription_id=sub_id, **f)
        r = self.of(ta)
        assert r and r[0]["msg-type"] == "accept", r
        return ta

    def notes(self, ta):
        return [(m["match-type"], m["service-id"]) for m in self.of(ta)
                if m["msg-type"] == "notify"]

    def services(self, **f):
        return {m["service-id"]: m for m in self.ok("services", **f)
                if m["msg-type"] == "notify"}

    def close(self, how=None):
        self.raw(how)

    def dropped(self):
        return bool(self.s.closed)
