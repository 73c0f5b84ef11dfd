"""Drives the real timer manager, and checks what it did against Timer.tla"""

import random

import core
import fakeenv
import tlc
import tour
import traces

NEVER = -1000000


class Stop(BaseException):
    pass


def ticks(v):
    if v is None:
        return NEVER
    t = (v - fakeenv.BASE) * fakeenv.TICK
    return int(t) if t == int(t) else -999999


def run(sc):
    """-> list of events"""
    import paf.timer
    w = fakeenv.World()
    fakeenv.set_world(w)
    ev = []
    handlers = {}
    timers = {}          # id -> (timer, h, x)
    shaky = set()        # ids of which it is not known whether they fired
    count = [0]
    scripts = sc["scripts"]
    tm = None

    def log(e, **kw):
        kw["e"] = e
        ev.append(kw)
        if len(ev) > 3000:
            raise Stop()

    def cb():
        log("cb", v=ticks(tm.next_timeout()))

    def handler(h):
        def fired():
            log("fire", h=h)
            k = count[0]
            count[0] += 1
            mine = [i for i in timers if timers[i][1] == h]
            if mine:
                x = min(timers[i][2] for i in mine)
                same = [i for i in mine if timers[i][2] == x]
                del timers[same[0]]
                shaky.update(same[1:])
            if k < len(scripts):
                for op in scripts[k]:
                    do(op, True)
        return fired

    def do(op, nest):
        what = op[0]
        if what == "tick":
            w.now += op[1]
            log("tick", t=w.now)
            return
        if what == "add":
            _, i, off, rel, h = op
            if i in timers or i in shaky:
                return
            if h not in handlers:
                handlers[h] = handler(h)
            x = w.now + off
            log("add", id=i, x=x, h=h)
            if rel:
                t = tm.add(handlers[h], off / fakeenv.TICK, relative=True)
            else:
                t = tm.add(handlers[h], fakeenv.BASE + x / fakeenv.TICK)
            timers[i] = (t, h, x)
        elif what == "rem":
            # a number, or a fraction which selects a pending timer
            if isinstance(op[1], float):
                c = sorted(i for i in timers if i not in shaky)
                if not c:
                    return
                i = c[int(op[1] * len(c))]
            else:
                i = op[1]
                if i not in timers or i in shaky:
                    return
            log("rem", id=i)
            t = timers.pop(i)[0]
            tm.remove(t)
        elif what == "process":
            log("begin")
            tm.process()
            log("end")
        log("ret", nest=nest, next=ticks(tm.next_timeout()),
            empty=bool(tm.empty()))

    try:
        tm = paf.timer.TimerManager(cb) if sc["cb"] else \
            paf.timer.TimerManager()
        for op in sc["steps"]:
            do(op, False)
    except (Exception, fakeenv.Hang, Stop) as e:
        log("crash", what=repr(e)[:200])
    finally:
        fakeenv.set_world(None)
    return ev


def generate(seed):
    r = random.Random(seed)
    size = r.choice([5, 20, 60, 120])
    spread = r.choice([3, 10, 100, 3000])
    unit = r.choice([1, 1, 1024])
    num = [0]
    hs = r.choice([0, 0, 3])

    def add():
        num[0] += 1
        rel = r.random() < 0.4
        off = r.randint(-1 if r.random() < 0.3 else 0, spread) * unit
        if r.random() < 0.1:
            off = 0
        h = r.randrange(hs) if hs else num[0]
        return ["add", num[0], off, rel, h]

    def tick():
        return ["tick", r.choice([1, 1, unit, r.randint(0, spread) * unit])]

    def some(nest):
        x = r.random()
        if x < 0.5:
            return add()
        if x < 0.75:
            return ["rem", r.random()]
        if x < 0.85 or nest:
            return tick()
        return ["process"]

    steps = []
    grow = r.random() < 0.5
    for _ in range(size):
        x = r.random()
        if grow and len(steps) < size // 2:
            steps.append(add())
        elif x < 0.6:
            steps.append(some(False))
        else:
            steps += [tick(), ["process"]]
    steps += [["tick", spread * unit], ["process"], ["tick",
                                                     spread * unit * 2],
              ["process"]]
    scripts = []
    for _ in range(size):
        scripts.append([some(True) for _ in range(
            r.choice([0, 0, 0, 1, 1, 2, 4]))])
    return {"cb": r.random() < 0.9, "steps": steps, "scripts": scripts}


def from_tour(acts, unit=1024):
    steps, scripts = [], []
    inside = False
    for a in acts:
        op = a["op"]
        if op == "add":
            x = ["add", a["id"], a["off"] * unit, a["id"] % 2 == 0, a["id"]]
        elif op == "rem":
            x = ["rem", a["id"]]
        elif op == "tick":
            x = ["tick", unit]
        elif op == "begin":
            steps.append(["process"])
            inside = True
            continue
        elif op == "end":
            inside = False
            continue
        else:
            scripts.append([])
            continue
        if inside and scripts:
            scripts[-1].append(x)
        elif not inside:
            steps.append(x)
    return {"cb": True, "steps": steps, "scripts": scripts}


def check_batch(scs, src, sample=0):
    cov = core.Cov()
    evs = [run(sc) for sc in scs]
    (gen, dist), vs = traces.judge(
        "TimerTrace", [{"cb": sc["cb"], "ev": e} for sc, e in zip(scs, evs)])
    cov.add("trace_validation_states", dist)
    cov.add("traces_" + src, len(scs))
    cov.add("events_recorded", sum(len(e) for e in evs))
    cov.add("timers_fired", sum(x["e"] == "fire" for e in evs for x in e))
    viol = []
    for sc, e, v in zip(scs, evs, vs):
        if v is None:
            cov.add("traces_validated_against_impl")
            continue
        viol.append(core.Violation(
            "event %d of a timer manager's history: %s" % (v[0], v[1]), v[2],
            {"kind": "timercheck", "scenario": sc, "event": v[0],
             "why": v[1]}))
    for e in evs[:sample]:
        cov.samples.append({"history of the real timer manager (first "
                            "events)": e[:20]})
    return cov, viol[:5]


def job_random(seed, n, sample):
    return check_batch([generate(seed + i) for i in range(n)], "random",
                       sample)


def job_model(size, seed, budget):
    out, rc = tlc.run("TimerMC", "mc/timer_%s.cfg" % size, workers=4,
                      heap="4g")
    if rc != 0:
        raise tlc.TlcError(out[-3000:])
    cov = core.Cov()
    gen, dist = tlc.stats(out)
    cov.add("states", dist)
    cov.add("transitions", gen)
    g = tour.Graph(out)
    ts, covered = g.tours(random.Random(seed), 100, budget)
    cov.add("model_edges", g.n_edges)
    cov.add("model_edges_driven_through_impl", covered)
    viol = []
    for part in core.chunks([from_tour(t) for t in ts], 400):
        c, v = check_batch(part, "model_tours")
        cov.merge(c)
        viol += v
    return cov, viol


def check(ctx):
    jobs = [(job_model, ("big" if ctx.thorough else "small", ctx.seed,
                         ctx.pick(60000, 10 ** 9)))]
    for k in range(ctx.pick(10, 300)):
        jobs.append((job_random, (ctx.seed * 1000003 + k * 1000, 400,
                                  2 if k == 0 else 0)))
    core.run_jobs(ctx, jobs, procs=4)


def replay(d, n):
    ev = run(d["scenario"])
    st, vs = traces.judge("TimerTrace", [{"cb": d["scenario"]["cb"],
                                          "ev": ev}])
    v = vs[0]
    for i, e in enumerate(ev[:v[0] if v else None], 1):
        print(i, e)
    print("not allowed: %s" % v[1] if v else "accepted")
    return 1 if v else 0
