"""Drives the real client library, and checks what it did against
ClientLib.tla"""

import collections
import errno
import json
import random
import select

import core
import fakeenv
import norm
import tlc
import tour
import traces
from fakeenv import TICK

BLOCK_KIND = {"hello": "args", "publish": "none", "unpublish": "none",
              "unsubscribe": "none", "subscriptions": "list",
              "services": "list", "ping": "lat", "clients": "list"}
MULTI = ("subscribe", "subscriptions", "services", "clients")
REASONS = ["no-hello", "permission-denied", "insufficient-resources",
           "odd 'reason' %s %d", "r\u00e4ksm\u00f6rg\u00e5s", ""]
BIG = 1000000


def text(s):
    return s.encode("unicode_escape").decode("ascii")


def canon(v):
    """The value, as a string"""
    if isinstance(v, bool) or v is None:
        return "b%r" % v
    if isinstance(v, str):
        return "s" + text(v)
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, dict):
        try:
            return "p" + text(json.dumps(sorted({(k, canon(x)) for k, xs in
                                                 v.items() for x in xs})))
        except TypeError:
            return "?" + text(repr(v))
    return "?" + text(repr(v))


def desc(name, v, ids):
    if v is None:
        return {"t": "null"}
    if isinstance(v, str):
        if name in ("ta-cmd", "msg-type"):
            return {"t": "str", "v": text(v)}
        return {"t": "str", "v": canon(v)}
    if norm.is_int(v):
        if 0 <= v <= norm.I64:
            return {"t": "int", "v": ids(v) if name == "ta-id" else canon(v)}
        return {"t": "num" if v > 0 else "bad", "v": canon(v)}
    if isinstance(v, float) and v >= 0:
        return {"t": "num", "v": canon(v)}
    if name == "service-props" and norm.is_props(v):
        return {"t": "props", "v": canon(v)}
    return {"t": "bad"}


class Driver:
    """scenario:
      track, ready, vmin, vmax, cid
      credit   how many messages can be sent to begin with (None: any)
      steps    see step()
      scripts  what the callbacks do
    """

    def __init__(self, sc):
        import paf.client
        self.client = paf.client
        self.sc = sc
        self.rnd = random.Random(sc.get("seed", 0))
        self.w = fakeenv.World()
        self.w.driver = self
        fakeenv.set_world(self.w)
        self.ev = []
        self.done = 0              # events of the world seen so far
        self.steps = collections.deque(sc["steps"])
        self.deferred = collections.deque()
        self.calls = 0
        self.n = 1
        self.conn = None
        self.sock = None
        self.idmap = {}
        self.ver = 0
        self.out = collections.OrderedDict()     # ta -> [cmd, state, queries]
        self.over = {}
        self.lib_ta = None
        self.lib_acc = False
        self.tracks = {}           # the user's own: ta -> accepted
        self.reasons = set()
        self.depth = 0
        self.auto = 0
        self.armed = []

    # -- recording

    def ids(self, v):
        if v < BIG:
            return v
        return self.idmap.setdefault(v, BIG + len(self.idmap))

    def log(self, e, **kw):
        kw["e"] = e
        self.sync()
        self.ev.append(kw)
        if len(self.ev) > 1500:
            raise fakeenv.HarnessStop()

    def wire(self, raw):
        try:
            m = norm.load(raw)
            ok = isinstance(m, dict)
        except (ValueError, RecursionError):
            ok = False
        if not ok:
            return {"obj": False, "f": {}}, None
        return {"obj": True, "f": {text(k): desc(k, v, self.ids)
                                   for k, v in m.items()}}, m

    def sync(self):
        """What has been sent and received since"""
        tr = self.w.trace
        while self.done < len(tr):
            ev = tr[self.done]
            self.done += 1
            if ev["e"] == "recv":
                w, m = self.wire(ev["raw"])
                self.ev.append({"e": "recv", "w": w})
                self.received(m)
            elif ev["e"] == "send":
                w, m = self.wire(ev["raw"])
                self.ev.append({"e": "send", "w": w})
            elif ev["e"] == "eof":
                self.ev.append({"e": "eof"})

    def received(self, m):
        if not isinstance(m, dict):
            return
        ta = m.get("ta-id")
        if not norm.is_int(ta):
            return
        if m.get("ta-cmd") == "track":
            if m.get("msg-type") == "accept":
                if ta == self.lib_ta:
                    self.lib_acc = True
                if ta in self.tracks:
                    self.tracks[ta] = True
            elif m.get("msg-type") == "fail":
                if ta == self.lib_ta:
                    self.lib_acc = False
                self.tracks.pop(ta, None)

    def on_send(self, sock, raw):
        """The server sees the message"""
        try:
            m = norm.load(raw)
            cmd, ta, ty = m["ta-cmd"], m["ta-id"], m["msg-type"]
        except (ValueError, KeyError, TypeError, RecursionError):
            return
        if not norm.is_int(ta):
            return
        if ty == "request":
            self.out[ta] = [cmd, "req", 0]
            if cmd == "track" and self.sc["track"] and self.lib_ta is None:
                self.lib_ta = ta
        elif ty == "inform" and ta in self.out and \
                m.get("track-type") == "query":
            self.out[ta][2] += 1

    # -- the server

    def push(self, m):
        if self.sock.broken is not None or None in self.sock.inbox:
            return
        if isinstance(m, dict):
            m = json.dumps(m).encode("utf-8")
        self.sock.inbox.append(m)

    def notification(self, cmd, r):
        num = lambda: r.choice([0, 1, 7, 4711, (1 << 63) - 1,
                                r.randint(0, 1 << 63 - 1)])
        props = lambda: r.choice([{}, {"name": ["x"]},
                                  {"a": [1, -5, "1"], "\u00e5": ["", "b"]},
                                  {"k": [10 ** 30], "e": []}])
        dur = lambda: r.choice([0, 1, 0.5, 1e300, 17.25, 10 ** 20])
        f = {}
        if cmd == "subscribe":
            f = {"match-type": r.choice(["appeared", "modified",
                                         "disappeared"]),
                 "service-id": num()}
            if f["match-type"] != "disappeared" or r.random() < 0.1:
                f.update({"generation": num(), "service-props": props(),
                          "ttl": num(), "client-id": num()})
                if r.random() < 0.4:
                    f["orphan-since"] = dur()
                for k in ("generation", "ttl"):
                    if r.random() < 0.05:
                        del f[k]
        elif cmd == "subscriptions":
            f = {"subscription-id": num(), "client-id": num()}
            if r.random() < 0.5:
                f["filter"] = r.choice(["(a=b)", "", "\u00e5"])
        elif cmd == "services":
            f = {"service-id": num(), "generation": num(),
                 "service-props": props(), "ttl": num(), "client-id": num()}
            if r.random() < 0.4:
                f["orphan-since"] = dur()
        elif cmd == "clients":
            f = {"client-id": num(), "client-address": "ux:x",
                 "time": num()}
            if self.ver == 3:
                f.update({"idle": dur(), "protocol-version":
                          r.choice([2, 3])})
                if r.random() < 0.5:
                    f["latency"] = dur()
        return f

    def good(self, r, ta=None, end=False, how=None):
        """A message a proper server could send"""
        if ta is None:
            if not self.out:
                return None
            ta = r.choice(list(self.out))
        cmd, st, queries = self.out[ta]
        m = {"ta-cmd": cmd, "ta-id": ta}
        fail = r.random() < 0.2 if how is None else how == "fail"
        if cmd in MULTI or cmd == "track":
            if st == "req":
                ty = "fail" if fail else "accept"
            elif cmd == "track":
                if how == "fail":
                    ty = "fail"
                else:
                    ty = "notify"
                    tt = "query"
                    if queries > 0 and r.random() < 0.7 and how != "query" \
                       or how == "reply":
                        tt = "reply"
                        self.out[ta][2] -= 1
                    m["track-type"] = tt
            elif how == "fail":
                ty = "fail"
            elif end or how == "complete" or \
                    (how is None and r.random() < 0.3):
                ty = "complete"
            else:
                ty = "notify"
                m.update(self.notification(cmd, r))
        else:
            ty = "fail" if fail else "complete"
            if cmd == "hello" and ty == "complete":
                v = r.choice([2, 3])
                if self.sc["vmin"] == 3 or self.sc["vmax"] == 2:
                    v = self.sc["vmin"] if self.sc["vmin"] == 3 else 2
                m["protocol-version"] = v
                if self.ver == 0:
                    self.ver = v
        if ty == "fail" and r.random() < 0.8:
            m["fail-reason"] = r.choice(REASONS)
            self.reasons.add(m["fail-reason"])
        m["msg-type"] = ty
        if ty == "accept":
            self.out[ta][1] = "acc"
        elif ty in ("complete", "fail"):
            self.over[ta] = cmd
            del self.out[ta]
        return m

    def bad(self, r):
        """A message that violates the protocol, most often"""
        k = r.randint(0, 11)
        if k == 0:
            return r.choice([b"{", b"[]", b"17", b"\xff\xfe", b"null", b"\"\"",
                             b"[" * 30000, b"{}", b" "])
        if k == 1:
            return {"ta-cmd": r.choice(["ping", "hello", "track", "clients"]),
                    "ta-id": r.choice([BIG, BIG * 3, (1 << 63) - 1]),
                    "msg-type": r.choice(["complete", "fail", "accept",
                                          "notify"])}
        if k == 2 and self.over:
            ta = r.choice(sorted(self.over))
            return {"ta-cmd": self.over[ta], "ta-id": ta,
                    "msg-type": r.choice(["complete", "fail", "accept"])}
        if not self.out:
            return None
        ta = r.choice(list(self.out))
        cmd, st, queries = self.out[ta]
        if k == 3:
            types = ["request", "inform", "accept", "notify", "complete",
                     "fail", "foo", "", "Complete"]
            m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": r.choice(types)}
            if m["msg-type"] == "notify":
                m.update(self.notification(cmd, r))
                if cmd == "track":
                    m["track-type"] = r.choice(["query", "reply", "reply",
                                                "foo"])
            if cmd == "hello" and m["msg-type"] == "complete":
                m["protocol-version"] = r.choice([0, 1, 4, 2 ** 40])
            return m
        if k == 4:
            m = {"ta-cmd": r.choice(["ping", "publish", "services", "track",
                                     "subscribe", "Ping", "foo", ""]),
                 "ta-id": ta,
                 "msg-type": r.choice(["complete", "accept", "fail"])}
            return m
        if k == 5 and cmd == "track" and st == "acc":
            return {"ta-cmd": cmd, "ta-id": ta, "msg-type": "notify",
                    "track-type": r.choice(["reply", "reply", "foo", 3])}
        save = (dict((a, list(b)) for a, b in self.out.items()),
                dict(self.over), self.ver, set(self.reasons))
        m = self.good(r, ta)
        if k == 6:
            m[r.choice(["x", "ta", "filter", "fail-reason", "ttl"])] = \
                r.choice([1, "x", None])
        elif k == 7:
            del m[r.choice(sorted(m))]
        elif k == 8:
            f = r.choice(sorted(m))
            m[f] = r.choice([None, True, -1, "0", 1.5, [], {}, {"a": 1},
                             {"a": [1.5]}, {"a": [True]}, {"a": ["b", 2]},
                             2 ** 63, float("nan"), float("inf"), "",
                             -10 ** 30, 1e400, 0])
        elif k == 9:
            if "ta-id" in m:
                m["ta-id"] = r.choice([-1, -2 ** 63, 2 ** 64, "0", 0.0,
                                       True, ta + 1000])
        elif k == 10:
            raw = json.dumps(m).encode()
            i = r.randrange(len(raw))
            return raw[:i] + r.choice([b"", b",", b"}", b"\xc3", b"\x00"]) + \
                raw[i + 1:]
        self.out = collections.OrderedDict(save[0])
        self.over, self.ver, self.reasons = save[1], save[2], save[3]
        if isinstance(m.get("fail-reason"), str):
            self.reasons.add(m["fail-reason"])
        return m

    # -- steps

    def apply(self, st):
        """What happens outside of the client"""
        k = st[0]
        if k == "srv":
            r = random.Random(st[2])
            m = self.good(r) if st[1] == "good" else self.bad(r)
            if m is not None:
                self.push(m)
        elif k == "srvm":
            # [_, index of the request, how]: as the model has it
            self.model_message(st[1], st[2])
        elif k == "credit":
            c = self.sock.credit
            self.sock.credit = None if st[1] is None else (c or 0) + st[1]
        elif k == "block":
            self.sock.credit = 0
        elif k == "eof":
            if None not in self.sock.inbox:
                self.sock.inbox.append(None)
        elif k == "rst":
            self.sock.broken = st[1]
        elif k == "adv":
            self.w.now += st[1]
            self.log("tick", t=self.w.now)
        elif k == "spur":
            self.sock.spurious = True
        else:
            raise fakeenv.HarnessError("step %r" % st)

    def model_message(self, ta, how):
        r = random.Random(len(self.ev) * 31 + ta)
        if ta in self.out:
            cmd, st, queries = self.out[ta]
        else:
            cmd, st, queries = self.over.get(ta, "ping"), "req", 0
        m = {"ta-cmd": cmd, "ta-id": ta if ta < 50 else BIG, "msg-type": how}
        if how == "cmd":
            m["ta-cmd"] = "publish" if cmd != "publish" else "ping"
            m["msg-type"] = "complete"
        elif how in ("query", "reply"):
            m["msg-type"] = "notify"
            m["track-type"] = how
        elif how == "notify":
            m.update(self.notification(cmd, r))
        elif how in ("v2", "v3"):
            m["msg-type"] = "complete"
            m["protocol-version"] = int(how[1])
            self.ver = self.ver or int(how[1])
        elif how == "complete" and cmd == "hello":
            m["protocol-version"] = 2
        elif how == "fail":
            m["fail-reason"] = r.choice(REASONS)
            self.reasons.add(m["fail-reason"])
        elif how == "junk":
            m = b"{"
        if how == "accept" and ta in self.out:
            self.out[ta][1] = "acc"
        elif how in ("complete", "fail", "v2", "v3") and ta in self.out:
            self.over[ta] = cmd
            del self.out[ta]
        self.push(m)

    OUTSIDE = ("srv", "srvm", "credit", "block", "eof", "rst", "adv", "spur")

    def step(self, st):
        k = st[0]
        if k in self.OUTSIDE:
            self.apply(st)
        elif k == "proc":
            self.process()
        elif k == "arm":
            self.armed.append(st[1])
        else:
            self.op(st)
            self.rest()

    def state(self):
        return {"inbox": bool(self.sock.inbox) or
                self.sock.broken is not None,
                "credit": self.sock.credit != 0 or
                self.sock.broken is not None}

    def target(self):
        t = self.sock.target
        return {"recv": bool(t & fakeenv.SO_RECEIVABLE),
                "send": bool(t & fakeenv.SO_SENDABLE)}

    def process(self):
        if not self.sock.ready() and (self.rnd.random() < 0.8 or
                                      self.sc.get("exact")):
            return
        self.sock.spurious = False
        self.log("proc", **self.state())
        self.conn.process()
        self.rest()

    def rest(self):
        self.log("procend", **self.target())

    # -- what the user does

    def script(self):
        k = self.calls
        self.calls += 1
        if self.armed:
            self.op(self.armed.pop(0))
        if k < len(self.sc["scripts"]):
            for op in self.sc["scripts"][k]:
                self.op(op)

    def callback(self, n):
        def cb(ta_id, event, *args, **optargs):
            ta = self.ids(ta_id) if norm.is_int(ta_id) and ta_id >= 0 else -9
            self.log("cb", n=n, ta=ta, ev=event.name,
                     args=[canon(a) for a in args],
                     opt={text(k.replace("_", "-")): canon(v)
                          for k, v in optargs.items()})
            self.script()
        return cb

    def op(self, op):
        k = op[0]
        if k == "adv":
            self.apply(op)
            return
        if k == "tquery":
            if self.lib_acc and self.lib_ta in self.out:
                self.log("tquery")
                self.conn.tracker.query()
            return
        if k == "inform":
            self.sync()
            acc = [t for t, a in sorted(self.tracks.items()) if a]
            if acc:
                ta = acc[int(op[1] * len(acc))]
                self.log("inform", ta=self.ids(ta), tt=canon(op[2]))
                if op[2] == "query":
                    self.conn.track_query(ta)
                else:
                    self.conn.track_reply(ta)
            return
        _, cmd, args, block = op
        self.sync()
        # as a client, one has to await the outcome of the handshake for these
        if cmd in ("clients", "track") and not self.ready or \
           cmd == "track" and self.ver_seen() != 3:
            return
        if block and self.depth >= 3:
            block = False
        n = self.n
        self.n += 1
        body = {k: canon(v) for k, v in args.items() if v is not None}
        if cmd == "hello":
            body = {"client-id": canon(self.sc["cid"]),
                    "protocol-minimum-version": canon(self.sc["vmin"]),
                    "protocol-maximum-version": canon(self.sc["vmax"])}
        c = self.conn
        fn = {"hello": lambda **kw: c.hello(**kw),
              "publish": lambda **kw: c.publish(
                  args["service-id"], args["generation"],
                  {k: set(v) for k, v in args["service-props"].items()},
                  args["ttl"], **kw),
              "unpublish": lambda **kw: c.unpublish(args["service-id"],
                                                    **kw),
              "subscribe": lambda response_cb: c.subscribe(
                  args["subscription-id"], response_cb,
                  filter=args.get("filter")),
              "unsubscribe": lambda **kw: c.unsubscribe(
                  args["subscription-id"], **kw),
              "subscriptions": lambda **kw: c.subscriptions(**kw),
              "services": lambda **kw: c.services(
                  filter=args.get("filter"), **kw),
              "ping": lambda **kw: c.ping(**kw),
              "clients": lambda **kw: c.clients(**kw),
              "track": lambda response_cb: c.track(response_cb)}[cmd]
        block = block and cmd not in ("subscribe", "track")
        self.log("issue", n=n, cmd=cmd, body=body,
                 who="block" if block else "user", block=block,
                 kind=BLOCK_KIND[cmd] if block else "none")
        if not block:
            ta = fn(response_cb=self.callback(n))
            if cmd == "track" and norm.is_int(ta):
                self.tracks[ta] = False
            self.log("returned", n=n,
                     ta=self.ids(ta) if norm.is_int(ta) and ta >= 0 else -9)
            return
        self.depth += 1
        try:
            res = fn()
        except self.client.TransactionError as e:
            self.log("blockret", n=n, k="txerr", v="",
                     reasons=self.mentioned(e))
            return
        finally:
            self.depth -= 1
        self.block_result(n, BLOCK_KIND[cmd], res)

    def ver_seen(self):
        self.sync()
        return self.ver

    def block_result(self, n, kind, res):
        k, v = kind, "?" + repr(res)
        if kind == "none":
            k = "none" if res is None else "other"
        elif kind == "args":
            if isinstance(res, (list, tuple)):
                v = [canon(x) for x in res]
            else:
                k = "other"
        elif kind == "lat":
            if isinstance(res, (int, float)) and abs(res) < 10 ** 6 and \
               res * TICK == int(res * TICK):
                v = int(res * TICK)
            else:
                k = "other"
        elif kind == "list":
            if isinstance(res, (list, tuple)):
                v = [self.note(x) for x in res]
            else:
                k = "other"
        self.log("blockret", n=n, k=k, v=v, reasons=[])

    @staticmethod
    def note(x):
        if not isinstance(x, (list, tuple)):
            return [{"t": "v", "v": canon(x)}]
        r = []
        for i, y in enumerate(x):
            if i == len(x) - 1 and isinstance(y, dict):
                r.append({"t": "o", "o": {text(str(k).replace("_", "-")):
                                          canon(v) for k, v in y.items()}})
            else:
                r.append({"t": "v", "v": canon(y)})
        return r

    def mentioned(self, e):
        return [canon(r) for r in sorted(self.reasons) if r in str(e)]

    # -- blocking calls

    def on_client_poll(self, poll, timeout):
        fd = self.sock.fd
        self.log("poll", reg=bool(poll.reg.get(fd, 0) & select.POLLIN),
                 **self.target())
        for _ in range(3000):
            if self.steps:
                st = self.steps.popleft()
                if st[0] in self.OUTSIDE:
                    self.apply(st)
                elif st[0] != "proc":
                    self.deferred.append(st)
                now = st[0] == "proc" if self.sc.get("exact") else \
                    self.rnd.random() < 0.7
            else:
                self.answer()
                now = True
            if self.sock.ready() and (now or not self.steps):
                self.sock.spurious = False
                self.log("pollret", **self.state())
                return [(fd, select.POLLIN)]
        raise fakeenv.Hang("a blocking call does not return")

    def answer(self):
        """The script has ended: let blocking calls return"""
        self.auto += 1
        if self.auto > 300:
            raise fakeenv.HarnessStop()
        self.sock.credit = None
        if self.auto > 200 or self.auto > 30 and not self.out:
            self.apply(["eof"])
        if self.out:
            m = self.good(random.Random(self.auto), end=True)
            self.push(m)

    # -- all of it

    def run(self):
        sc = self.sc
        self.ready = False
        try:
            with fakeenv.Watchdog(20):
                self.play()
        except fakeenv.HarnessStop:
            pass
        except (Exception, fakeenv.Hang) as e:
            if isinstance(e, fakeenv.HarnessError):
                raise
            try:
                self.sync()
                if isinstance(e, fakeenv.Hang):
                    self.ev.append({"e": "crash", "what": repr(e)[:200]})
                else:
                    lib = isinstance(e, (self.client.ProtocolError,
                                         self.client.TransportError))
                    self.ev.append({"e": "raise",
                                    "kind": "lib" if lib else repr(e)[:200],
                                    "reasons": self.mentioned(e)})
            except fakeenv.HarnessStop:
                pass
        finally:
            fakeenv.set_world(None)
        return {"c": {"track": sc["track"], "ready": sc["ready"]},
                "ev": self.ev}

    def play(self):
        sc = self.sc
        orig = fakeenv._xcm_connect
        xcm = self.client.xcm

        def connect(addr, flags=0, attrs={}):
            s = orig(addr, flags, attrs)
            s.credit = sc["credit"]
            self.sock = s
            return s
        xcm.connect = connect

        def on_ready():
            self.sync()
            self.ready = True
            self.log("ready")
            self.script()

        conf = self.client.ServerConf("ux:server",
                                      proto_version_min=sc["vmin"],
                                      proto_version_max=sc["vmax"])
        self.log("issue", n=0, cmd="hello",
                 body={"client-id": canon(sc["cid"]),
                       "protocol-minimum-version": canon(sc["vmin"]),
                       "protocol-maximum-version": canon(sc["vmax"])},
                 who="init", block=not sc["ready"],
                 kind="none" if sc["ready"] else "init")
        try:
            if sc["ready"]:
                # the callback may come while the constructor is running
                # only if it processes, which it does not have to
                self.conn = self.client.connect(conf, client_id=sc["cid"],
                                                ready_cb=on_ready,
                                                track=sc["track"])
            else:
                self.conn = self.client.connect(conf, client_id=sc["cid"],
                                                track=sc["track"])
                self.ready = True
                self.log("blockret", n=0, k="init", v="", reasons=[])
            self.rest()
            while True:
                while self.deferred:
                    self.step(self.deferred.popleft())
                if not self.steps:
                    break
                self.step(self.steps.popleft())
            for _ in range(8):
                if self.sock.ready():
                    self.sock.spurious = False
                    self.process()
        finally:
            xcm.connect = orig


def run(sc):
    return Driver(sc).run()


# ------------------------------------------------------------- scenarios

def request(r, block):
    cmd = r.choice(["publish", "unpublish", "subscribe", "unsubscribe",
                    "subscriptions", "services", "ping", "clients", "hello",
                    "track", "subscribe", "services", "ping"])
    num = lambda: r.choice([0, 1, 2, 17, (1 << 63) - 1])
    a = {}
    if cmd == "publish":
        a = {"service-id": num(), "generation": num(), "ttl": num(),
             "service-props": r.choice([{}, {"name": ["x"]}, {
                 "a": [1, -7, "1"], "\u00e5": ["\u00f6", ""]},
                 {"e": [], "n": [10 ** 20]}])}
    elif cmd == "unpublish":
        a = {"service-id": num()}
    elif cmd == "subscribe":
        a = {"subscription-id": num(), "filter": r.choice([
            None, "(a=b)", "", "(\u00e5=*)"])}
    elif cmd == "unsubscribe":
        a = {"subscription-id": num()}
    elif cmd == "services":
        a = {"filter": r.choice([None, None, "(a=b)", ""])}
    return ["req", cmd, a, block]


def user_op(r, pblock):
    x = r.random()
    if x < 0.12:
        return ["tquery"]
    if x < 0.2:
        return ["inform", r.random(), r.choice(["query", "reply"])]
    return request(r, r.random() < pblock)


def generate(seed):
    r = random.Random(seed)
    vmin, vmax = r.choice([(2, 3), (2, 3), (2, 3), (2, 2), (3, 3), (1, 7)])
    steps = []
    pbad = r.choice([0, 0, 0.02, 0.1])
    pblock = r.choice([0, 0.2, 0.5])
    pcredit = r.choice([0, 0, 0.3])
    pbreak = r.choice([0, 0, 0.02])
    if r.random() < 0.9:
        # the handshake
        if pcredit:
            steps.append(["credit", 5])
        steps += [["proc"], ["srv", "good", r.randrange(10 ** 9)], ["proc"]]
    for _ in range(r.choice([5, 20, 60])):
        x = r.random()
        if x < 0.3:
            steps.append(user_op(r, pblock))
        elif x < 0.65:
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                steps.append(["srv", "bad" if r.random() < pbad else "good",
                              r.randrange(10 ** 9)])
            if r.random() < 0.6:
                steps.append(["proc"])
        elif x < 0.9:
            steps.append(["proc"])
        elif x < 0.95:
            steps.append(["adv", r.choice([1, 10, 1024, 5000])])
        else:
            steps.append(["spur"])
        if r.random() < pcredit:
            steps.append(r.choice([["block"], ["credit", 1], ["credit", 1],
                                   ["credit", 3], ["credit", None]]))
        if r.random() < pbreak:
            steps.append(r.choice([["eof"], ["rst", errno.ECONNRESET],
                                   ["rst", errno.ETIMEDOUT]]))
    if r.random() < 0.1:
        k = r.randrange(len(steps) + 1)
        steps[k:k] = [["srv", "good", r.randrange(10 ** 9)]
                      for _ in range(300)]
    if r.random() < 0.1:
        k = r.randrange(len(steps) + 1)
        steps[k:k] = [["block"]] + [["req", "ping", {}, False]] * 200 + \
            [["credit", None], ["proc"]]
    scripts = []
    pscript = r.choice([0, 0.1, 0.3])
    for _ in range(60):
        scripts.append([user_op(r, pblock) for _ in
                        range(r.choice([1, 1, 2]))]
                       if r.random() < pscript else [])
    return {"track": r.random() < 0.4, "ready": r.random() < 0.5,
            "cid": r.choice([0, 1, 99, (1 << 63) - 1]),
            "vmin": vmin, "vmax": vmax,
            "credit": r.choice([None, None, 0, 1, 2]),
            "steps": steps, "scripts": scripts, "seed": seed}


def from_tour(model, acts):
    steps = []
    for a in acts:
        op = a["op"]
        if op in ("req", "arm"):
            r = ["req", a["cmd"], {"subscription-id": 1}
                 if a["cmd"] == "subscribe" else {}, a["block"]]
            steps.append(r if op == "req" else ["arm", r])
        elif op == "srv":
            steps.append(["srvm", a["ta"], a["how"]])
        elif op == "unblock":
            steps.append(["credit", None])
        else:
            steps.append([op])
    return {"track": model.startswith("track"),
            "ready": not model.startswith("calls"), "cid": 5, "vmin": 2,
            "vmax": 3, "credit": None, "steps": steps, "scripts": [],
            "seed": len(acts), "exact": True}


def job_model(model, seed, budget):
    out, rc = tlc.run("ClientMC", "mc/client_%s.cfg" % model, workers=4,
                      heap="8g")
    if rc != 0:
        raise tlc.TlcError(out[-3000:])
    cov = core.Cov()
    gen, dist = tlc.stats(out)
    cov.add("states", dist)
    cov.add("transitions", gen)
    g = tour.Graph(out)
    del out
    ts, covered = g.tours(random.Random(seed), 30, budget)
    cov.add("model_edges", g.n_edges)
    cov.add("model_edges_driven_through_impl", covered)
    viol = []
    for part in core.chunks([from_tour(model, t) for t in ts], 1000):
        c, v = check_batch(part, "model_tours")
        cov.merge(c)
        viol += v
    return cov, viol


def check_batch(scs, src, sample=0):
    cov = core.Cov()
    trs = [run(sc) for sc in scs]
    (gen, dist), vs = traces.judge("ClientTrace", trs)
    cov.add("trace_validation_states", dist)
    cov.add("traces_" + src, len(scs))
    kinds = collections.Counter(e["e"] for t in trs for e in t["ev"])
    cov.add("events_recorded", sum(kinds.values()))
    for k, name in (("send", "messages_sent"), ("recv", "messages_received"),
                    ("cb", "callbacks"), ("blockret", "blocking_calls"),
                    ("raise", "errors_raised")):
        cov.add(name, kinds[k])
    viol = []
    for sc, t, v in zip(scs, trs, vs):
        if v is None:
            cov.add("traces_validated_against_impl")
            continue
        viol.append(core.Violation(
            "event %d of a client's history: %s" % (v[0], v[1]), v[2],
            {"kind": "clientcheck", "scenario": sc, "event": v[0],
             "why": v[1]}))
    for t in trs[:sample]:
        cov.samples.append({"history of the real client library (first "
                            "events)": [core.clip(e) for e in t["ev"][:14]]})
    return cov, viol[:5]


def job_random(seed, n, sample):
    return check_batch([generate(seed + i) for i in range(n)], "random",
                       sample)


def check(ctx):
    jobs = [(job_model, (m + ctx.pick("_q", ""), ctx.seed,
                         ctx.pick(15000, 3000000)))
            for m in ("async", "calls", "track")]
    for k in range(ctx.pick(10, 300)):
        jobs.append((job_random, (ctx.seed * 1000003 + k * 1000, 250,
                                  2 if k == 0 else 0)))
    core.run_jobs(ctx, jobs, procs=4)


def replay(d, n):
    t = run(d["scenario"])
    st, vs = traces.judge("ClientTrace", [t])
    v = vs[0]
    for i, e in enumerate(t["ev"][:v[0] if v else None], 1):
        print(i, e)
    print("not allowed: %s" % v[1] if v else "accepted")
    return 1 if v else 0
