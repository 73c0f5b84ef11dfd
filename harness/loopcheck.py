"""Drives the real event loop, and checks what it did against EventLoop.tla"""

import collections
import math
import os
import random
import select

import core
import fakeenv
import tlc
import tour
import traces
from fakeenv import TICK, BASE, FD_BASE

NOTIME = -1000000
FAR = 2000000000
SIGTERM = b"\x0f"


class Stop(BaseException):
    pass


class File:
    def __init__(self, world):
        self.world = world
        self.fd = world.alloc_fd(self)

    def close(self):
        self.world.free_fd(self.fd)

    def ready(self):
        return False


class Driver:
    """scenario:
      n        number of sources
      init     operations before the first run
      polls    what happens in the polls: {"rdy": [numbers in [0, 1)],
               "adv": ticks, "sig": bool}
      scripts  operations of the handler calls
      runs     how often to run; "between": operations before the others
    """

    def __init__(self, sc):
        import paf.eventloop
        self.el = paf.eventloop
        self.sc = sc
        self.rnd = random.Random(sc.get("seed", 0))
        self.w = fakeenv.World()
        self.w.driver = self
        fakeenv.set_world(self.w)
        self.ev = []
        self.calls = 0
        self.polls = collections.deque(sc["polls"])
        self.added = set()
        self.files = {}            # descriptor number -> File
        self.loop = None

    def log(self, e, **kw):
        kw["e"] = e
        self.ev.append(kw)
        if len(self.ev) > 2500:
            raise Stop()

    def run(self):
        try:
            self.loop = self.el.EventLoop()
            self.srcs = [self.el.Source() for _ in range(self.sc["n"])]
            self.ops(self.sc["init"])
            for k in range(self.sc.get("runs", 1)):
                if k > 0:
                    self.ops(self.sc.get("between", []))
                self.log("run", sigs=sorted(
                    int(x) for x in getattr(self.w, "signals", {})))
                with fakeenv.Watchdog(20):
                    self.loop.run()
                self.log("end")
        except Stop:
            pass
        except (Exception, fakeenv.Hang) as e:
            if isinstance(e, fakeenv.HarnessError):
                raise
            self.log("crash", what=repr(e)[:200])
        finally:
            if self.loop is not None:
                try:
                    self.loop.close()
                except OSError:
                    pass
            fakeenv.set_world(None)
            self.w.epolls = []
        return self.ev

    # -- operations

    def handler(self, k):
        def called():
            self.log("call", src=k + 1)
            n = self.calls
            self.calls += 1
            s = self.srcs[k]
            if n < len(self.sc["scripts"]):
                self.ops(self.sc["scripts"][n], True)
            # no endless rounds
            if n >= len(self.sc["scripts"]) or self.rnd.random() < 0.8:
                if s.active:
                    self.do(["active", k + 1, False], True)
                if s.timeout is not None and \
                   s.timeout <= BASE + self.w.now / TICK:
                    if self.rnd.random() < 0.5 and \
                       n < 2 * len(self.sc["scripts"]):
                        self.do(["timeout", k + 1,
                                 self.rnd.randint(1, 20)], True)
                    else:
                        self.do(["cleartimeout", k + 1], True)
        return called

    def ops(self, ops, inside=False):
        for op in ops:
            self.do(op, inside)

    def users(self, fd):
        return [s for s in self.srcs if s.fd == fd]

    def do(self, op, inside=False):
        what = op[0]
        if what == "tick":
            self.w.now += op[1]
            self.log("tick", t=self.w.now)
            return
        if what == "stop":
            if inside:
                self.log("stop")
                self.loop.stop()
            return
        if what == "signal":
            self.signal()
            return
        if what == "open":
            # the lowest free number, as usual, or this one
            f = File.__new__(File)
            f.world = self.w
            fd = FD_BASE + op[1] - 1
            if fd in self.w.fds:
                return
            f.fd = fd
            self.w.fds[fd] = f
            self.files[fd] = f
            return
        if what == "close":
            fd = FD_BASE + op[1] - 1
            f = self.files.pop(fd, None)
            if f is not None:
                self.log("close", fd=op[1])
                f.close()
            return
        i = op[1]
        s = self.srcs[i - 1]
        if what == "add":
            if i in self.added or (s.fd is not None and
                                   s.fd not in self.files):
                return
            self.added.add(i)
            self.log("add", src=i)
            self.loop.add(s, self.handler(i - 1))
        elif what == "remove":
            if i not in self.added:
                return
            self.added.remove(i)
            self.log("remove", src=i)
            self.loop.remove(s)
        elif what == "setfd":
            fd = FD_BASE + op[2] - 1
            if fd not in self.files or \
               [u for u in self.users(fd) if u is not s]:
                return
            self.log("setfd", src=i, fd=op[2], mask=op[3])
            s.set_fd(fd, op[3])
        elif what == "clearfd":
            self.log("clearfd", src=i)
            s.clear_fd()
        elif what == "timeout":
            x = self.w.now + op[2]
            self.log("timeout", src=i, x=min(x, FAR))
            s.set_timeout(BASE + x / TICK)
        elif what == "cleartimeout":
            self.log("timeout", src=i, x=NOTIME)
            s.clear_timeout()
        elif what == "active":
            self.log("active", src=i, b=op[2])
            if op[2]:
                s.set_active()
            else:
                s.clear_active()

    def signal(self):
        self.log("signal")
        try:
            os.write(self.w.wakeup_fd, SIGTERM)
        except (AttributeError, OSError):
            pass

    # -- the poll

    def on_poll(self, ep, timeout):
        if timeout is None:
            to = -1
        else:
            to = min(FAR - 100000000, math.ceil(timeout * TICK))
        self.log("poll", to=to, regs=[[fd - FD_BASE + 1, m] for fd, m in
                                      sorted(ep.reg.items())
                                      if fd >= FD_BASE])
        step = self.polls.popleft() if self.polls else {"sig": True}
        if to >= FAR - 100000000:
            step = dict(step, sig=True)
        cand = [fd for fd in ep.reg if fd >= FD_BASE]
        fds = []
        for x in step.get("rdy", []):
            if isinstance(x, int):
                fd = FD_BASE + x - 1
            elif cand:
                fd = cand[int(x * len(cand))]
            else:
                continue
            if fd in cand and fd not in fds:
                fds.append(fd)
        adv = step.get("adv", 0)
        if not fds and not step.get("sig"):
            adv = to if to >= 0 else 0
            if to < 0 and cand and self.polls:
                fds = [self.rnd.choice(cand)]
            elif to < 0:
                step = {"sig": True}
        if to >= 0:
            adv = min(adv, to)
        if adv > 0:
            self.w.now += adv
            self.log("tick", t=self.w.now)
        if step.get("sig"):
            self.signal()
        pipes = [fd for fd in ep.reg if fd < FD_BASE]
        pipes = select.select(pipes, [], [], 0)[0] if pipes else []
        self.log("pollret", fds=[fd - FD_BASE + 1 for fd in fds],
                 sig=bool(pipes))
        res = [(fd, ep.reg[fd]) for fd in fds]
        for fd in pipes:
            res.insert(self.rnd.randint(0, len(res)), (fd, select.EPOLLIN))
        return res


def run(sc):
    return Driver(sc).run()


def generate(seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 5, 12])
    nf = r.choice([1, 2, 3, 5, 12])
    kinds = r.choice([["fd"], ["time"], ["active", "time"], ["fd", "time"],
                      ["fd", "time", "active"]])
    size = r.choice([5, 20, 60])

    def op():
        i = r.randint(1, n)
        k = r.choice(kinds + ["add", "add", "remove"])
        if k == "fd":
            x = r.random()
            if x < 0.45:
                return ["setfd", i, r.randint(1, nf), r.choice([1, 1, 4, 5])]
            if x < 0.6:
                return ["clearfd", i]
            if x < 0.8:
                return ["close", r.randint(1, nf)]
            return ["open", r.randint(1, nf)]
        if k == "time":
            x = r.random()
            if x < 0.65:
                return ["timeout", i, r.choice([0, 1, 2, 5, -1, 100, 10 ** 5,
                                                r.randint(0, 50)] +
                                               ([5 * 10 ** 9] if
                                                r.random() < 0.1 else []))]
            if x < 0.85:
                return ["cleartimeout", i]
            return ["tick", r.choice([0, 1, 5, 50])]
        if k == "active":
            return ["active", i, r.random() < 0.7]
        return [k, i]

    init = [["open", k] for k in range(1, nf + 1)]
    for i in range(1, n + 1):
        if "fd" in kinds and i <= nf and r.random() < 0.8:
            init.append(["setfd", i, i, 1])
        if "time" in kinds and r.random() < 0.5:
            init.append(["timeout", i, r.randint(0, 20)])
        if r.random() < 0.9:
            init.append(["add", i])
    init += [op() for _ in range(r.randint(0, size // 3))]
    polls = []
    for _ in range(size):
        polls.append({"rdy": [r.random() for _ in range(
            r.choice([0, 1, 1, 2, 4, 8]) if "fd" in kinds else 0)],
            "adv": r.choice([0, 0, 1, 5, 1000])})
    if r.random() < 0.3:
        polls[-1]["sig"] = True
    scripts = []
    for _ in range(size * 2):
        s = [op() for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
        if r.random() < 0.02:
            s.insert(r.randint(0, len(s)), ["stop"])
        if r.random() < 0.02:
            s.insert(r.randint(0, len(s)), ["signal"])
        scripts.append(s)
    return {"n": n, "init": init, "polls": polls, "scripts": scripts,
            "runs": r.choice([1, 1, 2]),
            "between": [op() for _ in range(r.randint(0, 5))],
            "seed": seed}


def from_tour(acts, nf=2):
    init = [["open", k] for k in range(1, nf + 1)]
    polls, scripts, between = [], [], []
    cur = init
    runs = 0
    for a in acts:
        op = a["op"]
        if op == "run":
            runs += 1
        elif op == "end":
            cur = between
        elif op == "poll":
            polls.append({"rdy": sorted(a["fds"])})
        elif op == "call":
            scripts.append([])
            cur = scripts[-1]
        elif op == "stop" or op == "signal":
            cur.append([op])
        elif op == "tick":
            cur.append(["tick", 1])
        elif op in ("open", "close"):
            cur.append([op, a["fd"]])
        elif op == "setfd":
            cur.append([op, a["src"], a["fd"], 1])
        elif op == "timeout":
            cur.append([op, a["src"], a["off"]])
        elif op == "active":
            cur.append([op, a["src"], a["b"]])
        else:
            cur.append([op, a["src"]])
    return {"n": 2, "init": init, "polls": polls, "scripts": scripts,
            "runs": max(1, runs), "between": between, "seed": len(acts)}


def check_batch(scs, src, sample=0):
    cov = core.Cov()
    evs = [run(sc) for sc in scs]
    (gen, dist), vs = traces.judge(
        "EventLoopTrace", [{"n": sc["n"], "ev": e}
                           for sc, e in zip(scs, evs)])
    cov.add("trace_validation_states", dist)
    cov.add("traces_" + src, len(scs))
    cov.add("events_recorded", sum(len(e) for e in evs))
    cov.add("handler_calls", sum(x["e"] == "call" for e in evs for x in e))
    cov.add("polls", sum(x["e"] == "poll" for e in evs for x in e))
    viol = []
    for sc, e, v in zip(scs, evs, vs):
        if v is None:
            cov.add("traces_validated_against_impl")
            continue
        viol.append(core.Violation(
            "event %d of an event loop's history: %s" % (v[0], v[1]), v[2],
            {"kind": "loopcheck", "scenario": sc, "event": v[0],
             "why": v[1]}))
    for e in evs[:sample]:
        cov.samples.append({"history of the real event loop (first "
                            "events)": e[:20]})
    return cov, viol[:5]


def job_random(seed, n, sample):
    return check_batch([generate(seed + i) for i in range(n)], "random",
                       sample)


def job_model(size, seed, budget):
    out, rc = tlc.run("EventLoopMC", "mc/loop_%s.cfg" % size, workers=4,
                      heap="6g")
    if rc != 0:
        raise tlc.TlcError(out[-3000:])
    cov = core.Cov()
    gen, dist = tlc.stats(out)
    cov.add("states", dist)
    cov.add("transitions", gen)
    viol = []
    if budget:
        g = tour.Graph(out)
        ts, covered = g.tours(random.Random(seed), 60, budget)
        cov.add("model_edges", g.n_edges)
        cov.add("model_edges_driven_through_impl", covered)
        for part in core.chunks([from_tour(t) for t in ts], 400):
            c, v = check_batch(part, "model_tours")
            cov.merge(c)
            viol += v
    return cov, viol


def check(ctx):
    jobs = [(job_model, ("small", ctx.seed, ctx.pick(15000, 10 ** 9))),
            (job_model, ("time", ctx.seed, ctx.pick(15000, 10 ** 9)))]
    if ctx.thorough:
        jobs.append((job_model, ("mix", ctx.seed, 0)))
    for k in range(ctx.pick(10, 300)):
        jobs.append((job_random, (ctx.seed * 1000003 + k * 1000, 400,
                                  2 if k == 0 else 0)))
    core.run_jobs(ctx, jobs, procs=4)


def replay(d, n):
    ev = run(d["scenario"])
    st, vs = traces.judge("EventLoopTrace", [{"n": d["scenario"]["n"],
                                              "ev": ev}])
    v = vs[0]
    for i, e in enumerate(ev[:v[0] if v else None], 1):
        print(i, e)
    print("not allowed: %s" % v[1] if v else "accepted")
    return 1 if v else 0
