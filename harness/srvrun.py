"""Runs the real server (through the daemon's run function) on a scenario.

A scenario is a plain dict, so that it can be stored and replayed:

  domains   [{"name":, "sockets": [addr, ...], "vmin":, "vmax":,
              "imin":, "imax":}]
  user      {"clients":, "services":, "subscriptions":}    limits (or absent)
  total     the same
  seed      for the choices of this run (order of ready descriptors, jitter)
  jitter    "rand" | "low" | "high"
  order     "all" | "sub" | "one"   how many ready descriptors poll() returns
  steps     list of steps, see Driver.apply
"""

import collections
import json
import math
import os
import random
import traceback

import fakeenv
from fakeenv import (World, HarnessStop, Hang, HarnessError, TICK, BASE,
                     FD_BASE, Watchdog)


class Driver:
    def __init__(self, world, scenario):
        self.w = world
        self.sc = scenario
        self.rnd = random.Random(scenario.get("seed", 0))
        self.steps = collections.deque(scenario["steps"])
        self.adv = 0
        self.budget = None
        self.early = {}           # not yet accepted connections
        self.live = None          # optional online driver
        self.last_poll_mark = -1
        self.last_quiet_mark = -1
        self.order = scenario.get("order", "all")
        self.stopping = False
        self.polls = 0
        self.auto = scenario.get("auto_reply", 0)

    # -- remote ends

    def peer_state(self, c):
        """inbox/broken/credit holder, before or after the accept"""
        return self.w.conns.get(c) or self.early.get(c)

    def put(self, c, item):
        st = self.peer_state(c)
        if st is None:
            return
        box = st["inbox"] if isinstance(st, dict) else st.inbox
        if isinstance(st, fakeenv.FakeConn) and st.is_closed:
            return
        if box and box[-1] is None:
            return
        box.append(item)

    def setattr(self, c, name, value):
        st = self.peer_state(c)
        if st is None:
            return
        if isinstance(st, dict):
            st[name] = value
        else:
            setattr(st, name, value)

    def apply(self, op):
        k = op[0]
        if k == "conn":
            c, addr, peer = op[1:4]
            lst = self.w.listeners.get(addr)
            if lst is None:
                return
            early = {"inbox": [], "broken": None, "credit": None}
            self.early[c] = early
            peer = dict(peer)
            if isinstance(peer.get("ski"), str):
                peer["ski"] = bytes.fromhex(peer["ski"])
            lst.pending.append((c, peer, early))
        elif k == "accerr":
            lst = self.w.listeners.get(op[1])
            if lst is not None:
                lst.pending.append(op[2])
        elif k == "msg":
            self.put(op[1], encode(op[2]))
        elif k == "raw":
            self.put(op[1], bytes.fromhex(op[2]))
        elif k == "eof":
            self.put(op[1], None)
        elif k == "rst":
            self.setattr(op[1], "broken", op[2])
        elif k == "credit":
            self.setattr(op[1], "credit", op[2])
        elif k == "spur":
            c = self.w.conns.get(op[1])
            if c is not None and not c.is_closed:
                c.spurious = True
        elif k == "stall":
            self.w.now += op[1]
            self.w.log("tick", t=self.w.now, stall=1, blk=self.blocked())
        elif k == "stop":
            self.stopping = True
            self.w.log("stop")
            os.write(self.w.wakeup_fd, b"\x0f")
        else:
            raise HarnessError("unknown op %r" % (op,))

    def on_send(self, conn, msg):
        """Clients may be asked to answer the server's queries"""
        if self.auto and b'"query"' in msg:
            try:
                m = json.loads(msg)
            except ValueError:
                return
            if m.get("ta-cmd") == "track" and \
               m.get("track-type") == "query" and \
               self.rnd.random() < self.auto:
                self.put(conn.num, encode({
                    "ta-cmd": "track", "ta-id": m.get("ta-id"),
                    "msg-type": "inform", "track-type": "reply"}))

    def blocked(self):
        return sorted(c.num for c in self.w.conns.values()
                      if not c.is_closed and c.credit == 0)

    def mark_poll(self):
        if self.last_poll_mark != len(self.w.trace):
            self.w.log("poll")
            self.last_poll_mark = len(self.w.trace)

    def mark_quiet(self):
        if self.last_quiet_mark != len(self.w.trace):
            pend = sorted(c.num for c in self.w.conns.values()
                          if not c.is_closed and
                          (c.inbox or c.broken is not None))
            pacc = sorted(a for a, s in self.w.listeners.items() if s.pending)
            self.w.log("quiet", pend=pend, pacc=pacc, blk=self.blocked())
            self.last_quiet_mark = len(self.w.trace)
            self.last_poll_mark = len(self.w.trace)

    def pick(self, ep, ready):
        if self.order == "all":
            self.rnd.shuffle(ready)
        elif self.order == "one":
            ready = [self.rnd.choice(ready)]
        elif self.order == "sub":
            self.rnd.shuffle(ready)
            ready = ready[:self.rnd.randint(1, len(ready))]
        for fd in ready:
            s = self.w.fds.get(fd)
            if s is not None and getattr(s, "spurious", False):
                s.spurious = False
        return [(fd, 1) for fd in ready]

    def on_poll(self, ep, timeout):
        w = self.w
        self.polls += 1
        self.mark_poll()
        until = None
        if timeout is not None:
            until = w.now + (max(1, math.ceil(timeout * TICK))
                             if timeout > 0 else 0)
        while True:
            if self.stopping:
                rfds = [fd for fd in ep.reg if fd < FD_BASE]
                if not rfds:
                    raise HarnessStop()
                ready = ep.ready()
                res = self.pick(ep, ready) if ready else []
                res.insert(self.rnd.randint(0, len(res)), (rfds[0], 1))
                return res
            ready = ep.ready()
            if ready and (self.budget is None or self.budget > 0):
                if self.budget is not None:
                    self.budget -= 1
                return self.pick(ep, ready)
            if not ready:
                if until is not None and w.now >= until:
                    return []
                self.mark_quiet()
                if self.adv > 0:
                    tt = self.adv
                    if until is not None and until - w.now < tt:
                        tt = until - w.now
                    self.adv -= tt
                    w.now += tt
                    w.log("tick", t=w.now, stall=0, blk=self.blocked())
                    continue
            self.next_step()

    def next_step(self):
        if not self.steps:
            if self.live is not None:
                self.steps.extend(self.live(self))
            if not self.steps:
                raise HarnessStop()
        step = self.steps.popleft()
        self.budget = None
        if isinstance(step, dict):
            self.budget = step.get("polls")
            ops = step["ops"]
        else:
            ops = step
        if len(ops) == 1 and ops[0][0] == "adv":
            self.adv = ops[0][1]
            return
        for op in ops:
            self.apply(op)


def encode(m):
    if isinstance(m, (bytes, bytearray)):
        return bytes(m)
    return json.dumps(m).encode("utf-8")


class Result:
    def __init__(self, world, crash, tb, extra):
        self.trace = world.trace
        self.crash = crash
        self.tb = tb
        self.extra = extra


def conf_source(sc):
    src = {"domains": []}
    for d in sc["domains"]:
        dom = {"sockets": list(d["sockets"]),
               "protocol_version": {"min": d.get("vmin", 2),
                                    "max": d.get("vmax", 3)},
               "idle": {"min": d.get("imin", 4), "max": d.get("imax", 30)}}
        if d.get("name") is not None:
            dom["name"] = d["name"]
        src["domains"].append(dom)
    res = {}
    for cls in ("user", "total"):
        lim = {k: v for k, v in sc.get(cls, {}).items() if v is not None}
        if lim:
            res[cls] = lim
    if res:
        src["resources"] = res
    return src


def run_scenario(sc, live=None, watchdog=30):
    import logging
    import paf.logging
    import paf.conf
    import paf.daemon

    rnd = random.Random(sc.get("seed", 0) * 7919 + 13)
    jm = sc.get("jitter", "rand")
    if jm == "low":
        jitter = lambda: 0.0
    elif jm == "high":
        jitter = lambda: 1.0 - 2.0 ** -53
    else:
        jitter = rnd.random
    world = World(rnd, jitter)
    driver = Driver(world, sc)
    driver.live = live
    world.driver = driver
    fakeenv.set_world(world)
    excs = []

    class Catch(logging.Handler):
        def emit(self, record):
            if record.exc_info:
                excs.append("".join(
                    traceback.format_exception(*record.exc_info)))

    catch = Catch()
    logging.getLogger().addHandler(catch)
    crash = None
    tb = None
    try:
        conf = paf.conf.Conf()
        paf.conf.populate(conf, conf_source(sc))
        try:
            with Watchdog(watchdog):
                paf.daemon.run(conf)
            crash = "run returned"
        except HarnessStop:
            pass
        except SystemExit as e:
            if e.code not in (0, None):
                crash = "daemon terminated"
                tb = "\n".join(excs)
            elif not driver.stopping:
                crash = "daemon exited"
            else:
                left = 0
                for ep in world.epolls:
                    left += len([fd for fd in ep.reg if fd >= FD_BASE])
                world.log("stopped", left=left)
        except Hang as e:
            crash = "hang: %s" % e
            tb = traceback.format_exc()
        except HarnessError:
            raise
        except Exception as e:
            crash = "exception %s: %s" % (type(e).__name__, e)
            tb = traceback.format_exc()
    finally:
        logging.getLogger().removeHandler(catch)
        fakeenv.set_world(None)
    if crash is not None:
        # what the daemon does after a crash is of no interest
        n = len(world.trace)
        while n > 0 and world.trace[n - 1]["e"] in ("sclose", "close"):
            n -= 1
        del world.trace[n:]
        world.log("crash", what=crash)
    res = Result(world, crash, tb, {"polls": driver.polls,
                                    "signals": sorted(
                                        getattr(world, "signals", {}))})
    world.epolls = []
    return res
