"""Runs checks: collects jobs, spreads them over processes, gathers coverage
and violations, and writes evidence."""

import json
import multiprocessing
import os
import resource
import shutil
import sys
import time
import traceback

import fakeenv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or \
    os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVIDENCE, "replay")


class Violation:
    def __init__(self, what, ids, replay):
        self.what = what           # one line
        self.ids = set(ids)
        self.replay = replay       # JSON serialisable, with a "kind"


class Cov:
    """What a run has covered; all counts are measured"""

    def __init__(self):
        self.n = {}
        self.samples = []
        self.notes = []

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def merge(self, other):
        for k, v in other.n.items():
            self.add(k, v)
        self.samples += other.samples
        self.notes += other.notes


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.cov = Cov()
        self.violations = []
        self.elsewhere = 0
        self.procs = 6 if (os.cpu_count() or 2) >= 6 else 3

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


def _call(args):
    fn, a = args
    # code which allocates without end is not to take the whole check along
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    try:
        cov, viol = fn(*a)
        return cov, viol, None
    except BaseException:
        return None, None, traceback.format_exc()


class MachineryError(Exception):
    pass


def run_jobs(ctx, jobs, procs=None):
    """jobs: list of (function, args); each returns (Cov, [Violation])"""
    jobs = list(jobs)
    if not jobs:
        return
    procs = min(procs or ctx.procs, len(jobs))
    mp = multiprocessing.get_context("fork")
    with mp.Pool(procs, maxtasksperchild=1) as pool:
        for cov, viol, err in pool.imap_unordered(_call, jobs):
            if err is not None:
                raise MachineryError(err)
            ctx.cov.merge(cov)
            for v in viol:
                if "HARNESS" in v.ids:
                    raise MachineryError("%s\n%s" % (v.what, str(v.replay)
                                                     [:3000]))
                if ctx.prop in v.ids or "ANY" in v.ids:
                    ctx.violations.append(v)
                else:
                    ctx.elsewhere += 1
                    if len(ctx.cov.notes) < 5:
                        ctx.cov.notes.append(
                            "a disagreement which concerns %s: %s" %
                            (",".join(sorted(v.ids)), v.what[:300]))


# ------------------------------------------------------------ server traces

def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        try:
            return bytes(x).decode("utf-8")
        except UnicodeDecodeError:
            return "hex:" + bytes(x).hex()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def clip(x):
    s = json.dumps(jsonable(x))
    return s if len(s) <= 300 else s[:300] + "..."


def validated(batch, cov, timeout=240):
    """The outcomes for each trace (one for each domain); None if TLC does not
    finish with it in time"""
    import subprocess
    import tlc
    import validate
    try:
        res, st, out = validate.validate(batch, workers=2, heap="3g",
                                         timeout=timeout)
        cov.add("trace_validation_states", st[1])
        return res
    except (subprocess.TimeoutExpired, tlc.TlcError) as e:
        if len(batch) == 1:
            if isinstance(e, subprocess.TimeoutExpired):
                return [None]
            if "Attempted to" not in str(e) and "was not" not in str(e):
                raise
            # the recording holds something that the specification cannot
            # even compare
            o = validate.Outcome()
            o.bad.append((0, "not comparable: " + str(e)[-1500:], {"ANY"}))
            return [[o]]
        h = len(batch) // 2
        return (validated(batch[:h], cov, 60) +
                validated(batch[h:], cov, 60))


def server_job(scs, sample=0, src="random"):
    """Run scenarios on the real server, and check the traces"""
    import srvrun
    import validate
    cov = Cov()
    viol = []
    batch = []
    tbs = []
    for sc in scs:
        r = srvrun.run_scenario(sc)
        batch.append((sc, r.trace))
        tbs.append(r.tb)
        cov.add("server_events_recorded", len(r.trace))
    for (sc, tr), r, tb in zip(batch, validated(batch, cov), tbs):
        if r is None:
            cov.add("traces_too_long_to_decide")
            continue
        v = validate.verdict(r)
        cov.add("traces_" + src)
        cov.add("behaviours_validated", len(r))
        if v is None:
            cov.add("traces_validated_against_impl")
            continue
        d, pos, why, ids = v
        if alone(sc, d, ids):
            cov.add("rerun_with_one_domain_and_socket")
            ids = ids | {"C20"}
        what = "domain %d, event %d: %s" % (d, pos, why)
        viol.append(Violation(what, ids, {
            "kind": "server", "scenario": sc, "domain": d, "event": pos,
            "why": why, "ids": sorted(ids), "traceback": tb}))
    for k in range(min(sample, len(batch))):
        tr = batch[k][1]
        cov.samples.append({"trace of the real server (first events)":
                            [clip(ev) for ev in tr[:14]],
                            "events": len(tr)})
    return cov, viol


def alone(sc, d, ids):
    """Has the disagreement in domain d to do with the presence of other
    domains, or of other sockets?  Is it gone without them?"""
    import srvrun
    doms = sc["domains"]
    if ids & {"C20", "ANY", "HARNESS"} or \
       len(doms) == 1 and len(doms[0]["sockets"]) == 1:
        return False
    socks = doms[d]["sockets"]
    mine = set()
    steps = []
    for step in sc["steps"]:
        ops = []
        for op in (step["ops"] if isinstance(step, dict) else step):
            if op[0] == "conn":
                if op[2] not in socks:
                    continue
                mine.add(op[1])
                op = ["conn", op[1], socks[0], op[3]]
            elif op[0] == "accerr":
                if op[1] not in socks:
                    continue
                op = ["accerr", socks[0], op[2]]
            elif op[0] not in ("adv", "stall", "stop") and \
                    op[1] not in mine:
                continue
            ops.append(op)
        if ops:
            steps.append(dict(step, ops=ops) if isinstance(step, dict)
                         else ops)
    one = dict(sc, domains=[dict(doms[d], sockets=socks[:1])], steps=steps)
    r = srvrun.run_scenario(one)
    out = validated([(one, r.trace)], Cov())[0]
    if out is None:
        return False
    import validate
    v = validate.verdict(out)
    return v is None or not v[3] & ids


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def random_jobs(profile, seed, n, size=200, length=40):
    def job(first, count, sample):
        import gen
        scs = [gen.scenario(profile, first + i, length)
               for i in range(count)]
        return server_job(scs, sample)
    res = []
    base = seed * 10000000
    for i in range(0, n, size):
        res.append((job_random, (profile, base + i, min(size, n - i),
                                 1 if i == 0 else 0, length)))
    return res


def job_random(profile, first, count, sample, length):
    import gen
    scs = [gen.scenario(profile, first + i, length) for i in range(count)]
    return server_job(scs, sample, "random_scenarios")


def corpus_jobs(ids):
    import corpus
    big = []
    small = []
    for k, sc in enumerate(corpus.scenarios()):
        if ids is None or ids & set(sc["ids"]):
            (big if len(json.dumps(sc["steps"])) > 20000
             else small).append(k)
    return [(job_corpus, (ks,)) for ks in [[k] for k in big] +
            chunks(small, 30)]


def job_corpus(ks):
    import corpus
    scs = corpus.scenarios()
    return server_job([scs[k] for k in ks], 0, "directed_scenarios")


def job_wire(seed, share, k, n):
    import wiregen
    scs = wiregen.scenarios(seed, share=share)
    return server_job(scs[k::n], 1 if k == 0 else 0, "wire_scenarios")


def job_model(model, seed, budget, length, thorough):
    """Explore a small world; walk through it on the real server"""
    import random
    import tlc
    import tour
    t0 = fakeenv.real_time()
    out = tour.explore(model, True, workers=4)
    gen, dist = tlc.stats(out)
    cov = Cov()
    cov.add("states", dist)
    cov.add("transitions", gen)
    cov.add("small_worlds")
    g = tour.Graph(out)
    del out
    rnd = random.Random(seed * 1000 + len(model))
    ts, covered = g.tours(rnd, length, budget)
    cov.add("model_edges", g.n_edges)
    cov.add("model_edges_driven_through_impl", covered)
    viol = []
    scs = [tour.scenario(model, t, seed + i) for i, t in enumerate(ts)]
    for part in chunks(scs, 150):
        c, v = server_job(part, 0, "model_tours")
        cov.merge(c)
        viol += v
        if v:
            break
    if ts:
        cov.samples.append({"behaviour of the model '%s', driven through "
                            "the real server (first actions)" % model:
                            [clip(a) for a in ts[0][:8]]})
    return cov, viol


# ------------------------------------------------------------------- results

def finish(ctx, t0, level, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = dict(ctx.cov.n)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov.setdefault(k, 0)
    cov["samples"] = ctx.cov.samples[:6]
    if ctx.elsewhere:
        cov["disagreements_concerning_other_properties"] = ctx.elsewhere
    if ctx.cov.notes:
        cov["notes"] = ctx.cov.notes[:8]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
          "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(fakeenv.real_time() - t0, 1),
          "violations": len(ctx.violations)}
    path = os.path.join(EVIDENCE, ctx.prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, path)


def write_replay(ctx, k, v):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%d.json" % (ctx.prop, k))
    with open(path, "w") as f:
        json.dump(dict(v.replay, property=ctx.prop, what=v.what), f,
                  indent=1, default=repr)
        f.write("\n")
    return path
