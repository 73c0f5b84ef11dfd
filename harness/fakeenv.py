"""A deterministic world around the real pathfinder code.

The code under test (/repo/paf) is imported unmodified.  What surrounds it is
replaced: the XCM transport (paf.xcm), epoll and the clock.  Control is
inverted: the real event loop calls epoll.poll(), and the fake epoll asks the
driver what happens next.  Everything the server does on its transport is
written to a trace, in order; these are the linearization points.

Time is counted in ticks of 1/1024 s, so that all time values that the code
derives by adding whole seconds are exact binary fractions.
"""

import collections
import errno
import math
import os
import select
import signal
import socket
import sys
import time
import types

TICK = 1024
BASE = 1600000000          # epoch second of tick 0
FD_BASE = 10000

MAX_TIME_CALLS = 400000
MAX_IDLE_POLLS = 3000

REPO = os.environ.get("PAF_REPO", "/repo")

error = socket.error

SO_RECEIVABLE = 1
SO_SENDABLE = 2
SO_ACCEPTABLE = 4


class HarnessStop(BaseException):
    """Leaves the real event loop from within poll()."""


MAX_EVENTS = 30000


class Hang(BaseException):
    """The code under test does not return, or spins."""


class HarnessError(Exception):
    """The harness, not the code under test, is broken."""


W = None      # the current world


def set_world(world):
    global W
    W = world


# ---------------------------------------------------------------- sockets

class World:
    def __init__(self, rnd=None, jitter=None):
        self.now = 0
        self.trace = []
        self.fds = {}              # fd -> fake socket
        self.epolls = []
        self.listeners = {}        # addr -> FakeServerSocket
        self.conns = {}            # connection number -> FakeConn
        self.driver = None
        self.time_calls = 0
        self.idle_polls = 0
        self.last_mark = None
        self.rnd = rnd
        self.jitter = jitter
        self.client_connects = []
        self.connect_error = None
        self.server_attrs = {}
        self.used_after_close = []

    def log(self, e, **kw):
        kw["e"] = e
        if len(self.trace) >= MAX_EVENTS and e != "crash":
            raise Hang("%d events" % MAX_EVENTS)
        self.trace.append(kw)

    def alloc_fd(self, sock):
        fd = FD_BASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = sock
        return fd

    def free_fd(self, fd):
        del self.fds[fd]
        for ep in self.epolls:
            ep.reg.pop(fd, None)

    def time(self):
        self.time_calls += 1
        if self.time_calls > MAX_TIME_CALLS:
            raise Hang("clock read %d times without going to sleep" %
                       MAX_TIME_CALLS)
        return BASE + self.now / TICK


class FakeSocket:
    def __init__(self):
        self.fd = W.alloc_fd(self)
        self.target = 0
        self.is_closed = False
        self.world = W
        self._blocking = True

    def _open(self):
        # as the assertion in the real binding
        assert not self.is_closed, "socket used after close"

    def fileno(self):
        self._open()
        return self.fd

    def set_target(self, condition):
        self._open()
        if not isinstance(condition, int) or condition & ~7:
            raise ValueError("invalid condition: '%s'" % condition)
        self.target = condition

    def finish(self):
        self._open()

    def set_blocking(self, val):
        self._open()
        self._blocking = val

    def is_blocking(self):
        self._open()
        return self._blocking

    def close(self):
        self._open()
        self.is_closed = True
        self.world.free_fd(self.fd)
        self.on_close()

    def on_close(self):
        pass

    def ready(self):
        return False

    def set_attr(self, name, value):
        self._open()

    def get_attr(self, name):
        self._open()
        raise error(errno.ENOENT, os.strerror(errno.ENOENT))


class FakeConn(FakeSocket):
    """The code's end of a connection.  The harness is the remote end."""

    def __init__(self, num, peer):
        FakeSocket.__init__(self)
        self.num = num
        self.peer = peer           # dict: addr, transport, ski
        self.inbox = collections.deque()
        self.broken = None         # errno, once the connection is broken
        self.credit = None         # None: never blocks, else sends left
        self.sent = []
        self.spurious = False

    def receive(self):
        self._open()
        if not self.inbox:
            if self.broken is not None:
                self.world.log("eof", c=self.num, how=self.broken)
                raise error(self.broken, os.strerror(self.broken))
            raise error(errno.EAGAIN, os.strerror(errno.EAGAIN))
        item = self.inbox[0]
        if item is None:           # orderly close: stays
            self.world.log("eof", c=self.num, how=0)
            return b""
        self.inbox.popleft()
        self.world.log("recv", c=self.num, raw=item)
        return item

    def send(self, msg):
        self._open()
        if not isinstance(msg, (bytes, bytearray)):
            raise TypeError("message is not bytes")
        if self.broken is not None:
            self.world.log("eof", c=self.num, how=self.broken)
            raise error(errno.EPIPE, os.strerror(errno.EPIPE))
        if self.credit is not None:
            if self.credit == 0:
                raise error(errno.EAGAIN, os.strerror(errno.EAGAIN))
            self.credit -= 1
        self.world.log("send", c=self.num, raw=bytes(msg))
        self.sent.append(bytes(msg))
        if self.world.driver is not None:
            self.world.driver.on_send(self, bytes(msg))
        return 0

    def on_close(self):
        self.world.log("close", c=self.num)

    def ready(self):
        if self.spurious:
            return True
        if self.target & SO_RECEIVABLE and \
           (self.inbox or self.broken is not None):
            return True
        if self.target & SO_SENDABLE and \
           (self.credit is None or self.credit > 0 or
                self.broken is not None):
            return True
        return False

    def get_attr(self, name):
        self._open()
        if name == "xcm.remote_addr":
            return self.peer["addr"]
        if name == "xcm.transport":
            return self.peer["transport"]
        if name == "tls.peer_subject_key_id" and \
                self.peer.get("ski") is not None:
            return self.peer["ski"]
        raise error(errno.ENOENT, os.strerror(errno.ENOENT))


class FakeListener(FakeSocket):
    def __init__(self, addr, attrs):
        FakeSocket.__init__(self)
        self.addr = addr
        self.attrs = attrs
        self.pending = collections.deque()   # (num, peer) or errno
        W.listeners[addr] = self

    def accept(self, attrs={}):
        self._open()
        if not self.pending:
            raise error(errno.EAGAIN, os.strerror(errno.EAGAIN))
        item = self.pending.popleft()
        if isinstance(item, int):
            self.world.log("accerr", sock=self.addr)
            raise error(item, os.strerror(item))
        num, peer, early = item
        conn = FakeConn(num, peer)
        conn.inbox.extend(early["inbox"])
        conn.broken = early["broken"]
        conn.credit = early["credit"]
        self.world.conns[num] = conn
        self.world.log("accept", c=num, sock=self.addr, peer=peer)
        return conn

    def ready(self):
        return bool(self.target & SO_ACCEPTABLE and self.pending)

    def on_close(self):
        self.world.log("sclose", sock=self.addr)
        if self.world.listeners.get(self.addr) is self:
            del self.world.listeners[self.addr]


class FakeEpoll:
    def __init__(self, sizehint=-1, flags=0):
        if W is None:
            raise HarnessError("epoll created without a world")
        self.reg = {}
        self.world = W
        W.epolls.append(self)

    def register(self, fd, eventmask=select.EPOLLIN):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd in self.reg:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
        if fd >= FD_BASE and fd not in self.world.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self.reg[fd] = eventmask

    def modify(self, fd, eventmask):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self.reg[fd] = eventmask

    def unregister(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd not in self.reg:
            if fd >= FD_BASE and fd not in self.world.fds:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        del self.reg[fd]

    def fileno(self):
        return 3

    def close(self):
        self.reg = {}

    def poll(self, timeout=None, maxevents=-1):
        w = self.world
        w.time_calls = 0
        if timeout is not None and timeout < 0:
            timeout = None
        if timeout is not None and math.ceil(timeout * 1000) > (1 << 31) - 1:
            raise OverflowError("timeout is too large")
        if w.last_mark == (len(w.trace), w.now):
            w.idle_polls += 1
            if w.idle_polls > MAX_IDLE_POLLS:
                raise Hang("event loop spins: %d polls without effect" %
                           MAX_IDLE_POLLS)
        else:
            w.idle_polls = 0
        w.last_mark = (len(w.trace), w.now)
        return w.driver.on_poll(self, timeout)

    def ready(self):
        res = []
        for fd in self.reg:
            sock = self.world.fds.get(fd)
            if sock is not None and sock.ready():
                res.append(fd)
        return res


# ------------------------------------------------------- fake module paf.xcm

def _xcm_server(addr, attrs={}):
    if addr in W.listeners:
        raise error(errno.EADDRINUSE, os.strerror(errno.EADDRINUSE))
    return FakeListener(addr, dict(attrs))


def _xcm_connect(addr, flags=0, attrs={}):
    if W.connect_error is not None:
        raise error(W.connect_error, os.strerror(W.connect_error))
    conn = FakeConn(len(W.client_connects), {"addr": addr,
                                             "transport": addr.split(":")[0]})
    W.client_connects.append((conn, dict(attrs)))
    return conn


def _make_xcm():
    m = types.ModuleType("paf.xcm")
    m.error = error
    m.SO_RECEIVABLE = SO_RECEIVABLE
    m.SO_SENDABLE = SO_SENDABLE
    m.SO_ACCEPTABLE = SO_ACCEPTABLE
    m.NONBLOCK = 1
    m.MAX_MSG = 65535
    m.ATTR_TYPE_BOOL = 1
    m.ATTR_TYPE_INT64 = 2
    m.ATTR_TYPE_STR = 3
    m.ATTR_TYPE_BIN = 4
    m.Socket = FakeSocket
    m.ConnectionSocket = FakeConn
    m.ServerSocket = FakeListener
    m.server = _xcm_server
    m.connect = _xcm_connect
    return m


class FakePoll:
    """select.poll(), used by the client library's blocking calls."""

    def __init__(self):
        self.reg = {}

    def register(self, fd, eventmask=0):
        if not isinstance(fd, int):
            fd = fd.fileno()
        self.reg[fd] = eventmask

    def modify(self, fd, eventmask):
        self.reg[fd] = eventmask

    def unregister(self, fd):
        del self.reg[fd]

    def poll(self, timeout=None):
        w = W
        w.time_calls = 0
        w.idle_polls += 1
        if w.idle_polls > MAX_IDLE_POLLS:
            raise Hang("poll() called %d times" % MAX_IDLE_POLLS)
        return w.driver.on_client_poll(self, timeout)


_real = {}
_installed = False


def install():
    """Patch the interpreter; to be called before paf is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    for name in list(sys.modules):
        if name == "paf" or name.startswith("paf."):
            raise HarnessError("paf imported too early")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    _real["time"] = time.time
    _real["monotonic"] = time.monotonic
    _real["signal"] = signal.signal
    _real["poll"] = select.poll
    _real["epoll"] = select.epoll
    import random
    _real["random"] = random.random
    import logging
    import logging.handlers

    def vtime():
        return _real["time"]() if W is None else W.time()

    def vmono():
        return _real["monotonic"]() if W is None else W.time()

    time.time = vtime
    time.monotonic = vmono
    time.time_ns = lambda: int(vtime() * 1000000000)
    time.monotonic_ns = lambda: int(vmono() * 1000000000)

    def vsleep(t):
        raise HarnessError("sleep called")

    def vsignal(signo, handler):
        if W is None:
            return _real["signal"](signo, handler)
        W.signals = getattr(W, "signals", {})
        W.signals[signo] = handler
        return None

    def vwakeup(fd, *args, **kw):
        # event loops of earlier runs reset it when they are collected
        if W is not None and fd >= 0:
            W.wakeup_fd = fd
        return -1

    signal.signal = vsignal
    signal.set_wakeup_fd = vwakeup

    def vrandom():
        if W is not None and W.jitter is not None:
            return W.jitter()
        return _real["random"]()

    random.random = vrandom
    select.epoll = FakeEpoll
    select.poll = FakePoll

    # logging must not slow us down nor reach the outside, but the messages
    # are still to be formatted
    class Sink(logging.Handler):
        def emit(self, record):
            record.getMessage()

    root = logging.getLogger()
    root.handlers = [Sink()]
    root.setLevel(logging.DEBUG)
    logging.raiseExceptions = True

    import paf
    paf_file = os.path.realpath(paf.__file__)
    if not paf_file.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("wrong paf imported: %s" % paf_file)
    sys.modules["paf.xcm"] = _make_xcm()
    paf.xcm = sys.modules["paf.xcm"]


def real_time():
    return _real.get("time", time.time)()


class Watchdog:
    """Turns a handler that never returns into a Hang."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def on_alarm(signo, frame):
            raise Hang("no return after %d s" % self.seconds)
        self.old = _real["signal"](signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        _real["signal"](signal.SIGALRM, self.old)
