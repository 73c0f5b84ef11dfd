"""Starts the real daemon with configurations, and has Conf.tla judge what
came of it"""

import collections
import contextlib
import io
import json
import logging
import os
import random
import shutil
import tempfile

import core
import fakeenv
import tlaval
import tlc
import traces

BIG = 1000000


def text(s):
    return s.encode("unicode_escape").decode("ascii")


class Ints:
    """Large integers, by rank"""

    def __init__(self):
        self.seen = set()

    def note(self, v):
        if isinstance(v, dict):
            for k, x in v.items():
                self.note(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                self.note(x)
        elif isinstance(v, int) and not isinstance(v, bool) and abs(v) > BIG:
            self.seen.add(v)

    def get(self, v):
        if abs(v) <= BIG:
            return v
        if v not in self.seen:
            return BIG + 500000 if v > 0 else -BIG - 500000
        if v > 0:
            return BIG + 1 + sorted(x for x in self.seen if x > 0).index(v)
        return -BIG - 1 - sorted((x for x in self.seen if x < 0),
                                 reverse=True).index(v)


def node(v, ints, depth=0):
    if depth > 30:
        return {"t": "other"}
    if v is None:
        return {"t": "null"}
    if isinstance(v, bool):
        return {"t": "bool", "v": v}
    if isinstance(v, int):
        return {"t": "int", "v": ints.get(v)}
    if isinstance(v, str):
        return {"t": "str", "v": text(v), "p": text(v.split(":")[0])}
    if isinstance(v, list):
        return {"t": "list", "l": [node(x, ints, depth + 1) for x in v]}
    if isinstance(v, dict):
        return {"t": "map",
                "m": {text(k) if isinstance(k, str) else
                      "#%s:%s" % (type(k).__name__, text(str(k))):
                      node(x, ints, depth + 1) for k, x in v.items()}}
    return {"t": "other"}


def value(v, ints):
    """A setting"""
    if v is None:
        return ""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return ints.get(v)
    if isinstance(v, str):
        return text(v)
    return "?" + text(repr(v))


def limit(v, ints):
    return -1 if v is None else value(v, ints)


def strs(d):
    return {text(str(k)): text(str(v)) for k, v in d.items()}


class StandIn(logging.Handler):
    """For SysLogHandler: there may not be a system log"""

    def __init__(self, address=None, facility=None, socktype=None):
        logging.Handler.__init__(self)
        self.address = address
        self.facility = facility

    def emit(self, record):
        record.getMessage()


class Started(BaseException):
    pass


class Driver:
    def on_poll(self, ep, timeout):
        raise fakeenv.HarnessStop()

    def on_send(self, sock, raw):
        pass


def write_doc(path, doc):
    """doc: ["tree", value] or ["text", bytes as latin-1], ["dir"] or
    ["missing"]"""
    import yaml
    if doc[0] == "tree":
        with open(path, "w") as f:
            yaml.safe_dump(doc[1], f, allow_unicode=doc[2] if len(doc) > 2
                           else False)
    elif doc[0] == "text":
        with open(path, "wb") as f:
            f.write(doc[1].encode("latin-1"))
    elif doc[0] == "dir":
        os.mkdir(path)


def meaning(doc):
    """The document tree, or None"""
    import yaml
    if doc[0] == "tree":
        return doc[1], True
    if doc[0] == "text":
        try:
            return yaml.safe_load(doc[1].encode("latin-1").decode("utf-8")), \
                True
        except (yaml.YAMLError, ValueError):
            return None, False
    return None, False


def swap(v, a, b):
    """Replace prefix a of strings"""
    if isinstance(v, str):
        return b + v[len(a):] if v.startswith(a) else v
    if isinstance(v, list):
        return [swap(x, a, b) for x in v]
    if isinstance(v, dict):
        return {k: swap(x, a, b) for k, x in v.items()}
    return v


def run(case):
    """case: docs: {name: doc}, opts: [[option, value]], args: [address].
    File names in a case begin with '@', for the scratch directory"""
    scratch = tempfile.mkdtemp(prefix="paf-conf-")
    try:
        return run_in(case, scratch + "/")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(case, scratch):
    import logging.handlers
    import paf.conf
    import paf.daemon
    import paf.sd

    ints = Ints()
    for doc in case["docs"].values():
        ints.note(meaning(doc)[0])
    for o in case["opts"]:
        if o[0] in ("-b", "-x", "-c") and is_number(o[1]):
            ints.note(int(o[1]))
    for name, doc in case["docs"].items():
        if doc[0] == "tree":
            doc = [doc[0], swap(doc[1], "@", scratch)] + doc[2:]
        write_doc(scratch + name, doc)
    argv = ["pafd"]
    for o in case["opts"]:
        argv.append(o[0])
        if len(o) > 1:
            argv.append(swap(o[1], "@", scratch))
    argv += case["args"]

    # the specification's input
    doc = {"t": "none"}
    for o in case["opts"]:
        if o[0] == "-f":
            d = case["docs"].get(o[1][1:], ["missing"])
            v, ok = meaning(d)
            doc = node(v, ints) if ok else {"t": "unreadable"}
    opts = []
    for o in case["opts"]:
        x = {"o": o[0], "v": "", "isint": False, "i": 0, "l": []}
        if len(o) > 1:
            x["v"] = text(o[1])
            x["l"] = [text(a) for a in o[1].split("+")]
            if is_number(o[1]):
                x["isint"] = True
                x["i"] = ints.get(int(o[1]))
        opts.append(x)
    tr = {"doc": doc, "opts": opts, "args": [text(a) for a in case["args"]]}

    world = fakeenv.World()
    world.driver = Driver()
    fakeenv.set_world(world)
    captured = []
    orig_run = paf.daemon.run
    root = logging.getLogger()
    saved = (root.handlers, root.level, logging.handlers.SysLogHandler,
             os.path.exists)
    root.handlers = []
    root.setLevel(logging.WARNING)
    # constants and the like are still the real ones
    StandIn.__bases__ = (logging.Handler,)
    fake = type("SysLogHandler", (StandIn,), {
        k: v for k, v in vars(saved[2]).items()
        if k.startswith("LOG_") or k.endswith("_names")})
    logging.handlers.SysLogHandler = fake
    real_exists = os.path.exists
    os.path.exists = lambda p: True if p == "/dev/log" or \
        str(p).startswith("/sock/") else real_exists(p)
    handlers = []

    def wrapped(conf, *a, **kw):
        captured.append(conf)
        handlers.extend(root.handlers)
        captured.append(root.level)
        return orig_run(conf, *a, **kw)

    paf.daemon.run = wrapped
    out = io.StringIO()
    e = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            paf.daemon.main(argv)
        e = {"k": "crash", "what": "returned"}
    except fakeenv.HarnessStop:
        e = {"k": "run"}
    except SystemExit as x:
        if x.code in (0, None):
            e = {"k": "crash", "what": "exit 0"}
        elif captured:
            e = {"k": "crash", "what": "daemon terminated: " +
                 text(out.getvalue()[-300:])}
        else:
            e = {"k": "refused", "text": bool(out.getvalue().strip())}
    except Exception as x:
        e = {"k": "crash", "what": text(repr(x)[:300])}
    finally:
        paf.daemon.run = orig_run
        for h in root.handlers:
            if isinstance(h, logging.FileHandler):
                h.close()
        root.handlers, lvl, logging.handlers.SysLogHandler, \
            os.path.exists = saved
        root.setLevel(lvl)
        fakeenv.set_world(None)
        world.epolls = []
    if e["k"] == "run":
        try:
            e.update(settings(captured, handlers, world, ints, scratch))
        except Exception as x:
            e = {"k": "crash", "what": "settings: " + text(repr(x)[:300])}
    tr["e"] = e
    return tr


def is_number(s):
    t = s[1:] if s[:1] == "-" else s
    return t.isascii() and t.isdigit()


def settings(captured, handlers, world, ints, scratch):
    import paf.sd
    conf, level = captured
    str(conf)
    log = conf.log
    val = lambda v: value(swap(v, scratch, "@"), ints)
    res = {"conf": {
        "log": {"console": val(log.console), "log_file": val(log.log_file),
                "log_file_backup": val(log.log_file_backup),
                "log_file_max_size": val(log.log_file_max_size),
                "syslog": val(log.syslog),
                "syslog_socket": val(log.syslog_socket),
                "facility": val(log.facility), "filter": val(log.filter)},
        "domains": [], "user": {}, "total": {}}}
    for d in conf.domains:
        res["conf"]["domains"].append({
            "name": val(d.name),
            "vmin": val(d.proto_version_limit.version_min),
            "vmax": val(d.proto_version_limit.version_max),
            "imin": val(d.idle_limit.idle_min),
            "imax": val(d.idle_limit.idle_max),
            "sockets": [{"addr": val(s.addr), "tls": strs(s.tls_attrs)}
                        for s in d.sockets]})
    kinds = {"clients": paf.sd.ResourceType.CLIENT,
             "services": paf.sd.ResourceType.SERVICE,
             "subscriptions": paf.sd.ResourceType.SUBSCRIPTION}
    for cls in ("user", "total"):
        r = getattr(conf.resources, cls).resources
        res["conf"][cls] = {k: limit(r[t], ints) for k, t in kinds.items()}
    res["lst"] = [{"addr": val(a),
                   "attrs": {k: text(v) for k, v in s.attrs.items()
                             if isinstance(v, str)},
                   "crl": bool(s.attrs.get("tls.check_crl", False))}
                  for a, s in world.listeners.items()]
    lg = {"console": False, "syslog": False, "syslog_socket": "",
          "facility": 0, "filter": level, "log_file": "",
          "log_file_backup": 0, "log_file_max_size": 0}
    for h in handlers:
        if isinstance(h, StandIn):
            lg["syslog"] = True
            lg["syslog_socket"] = val(h.address)
            lg["facility"] = val(h.facility)
        elif isinstance(h, logging.FileHandler):
            lg["log_file"] = val(h.baseFilename)
            lg["log_file_backup"] = val(getattr(h, "backupCount", 0))
            lg["log_file_max_size"] = val(getattr(h, "maxBytes", 0))
        elif isinstance(h, logging.StreamHandler):
            lg["console"] = True
    res["log"] = lg
    return res


# --------------------------------------------------------------- generation

WRONG = [None, True, False, 0, 1, -1, 7, 1.5, 4.0, "x", "3", "", [], [1],
         {}, {"min": 2}, "true", 2 ** 70, -2 ** 70]


class Gen:
    """perr: how often something is wrong"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.perr = self.r.choice([0, 0, 0.03, 0.1])
        self.popt = self.r.choice([0.2, 0.5, 0.8])
        self.n = 0

    def opt(self, d, key, fn):
        if self.r.random() < self.popt:
            d[key] = self.err(fn)

    def err(self, fn):
        return self.r.choice(WRONG) if self.r.random() < self.perr else fn()

    def addr(self):
        self.n += 1
        return self.r.choice(["ux:d%d", "tls:1.2.3.4:%d", "utls:*:%d",
                              "tcp:[::1]:%d", "uxf:/x/%d", "plain%d",
                              "tl:%d", "\u00e5:%d", "TLS:%d", "xtls:%d",
                              "tls2:%d", ":tls:%d"]) % self.n

    def log(self):
        r, d = self.r, {}
        self.opt(d, "console", lambda: r.random() < 0.5)
        self.opt(d, "log_file", lambda: r.choice(["@a.log", "@b.log"]))
        self.opt(d, "log_file_backup", lambda: r.choice([0, 1, 5, 100]))
        self.opt(d, "log_file_max_size",
                 lambda: r.choice([0, 1, 1000000, 5000, 2 ** 33]))
        self.opt(d, "syslog", lambda: r.random() < 0.5)
        self.opt(d, "syslog_socket",
                 lambda: r.choice(["/dev/log", "/sock/x"]))
        self.opt(d, "facility", lambda: r.choice(
            ["daemon", "user", "local0", "local7", "kern", "auth", "cron"] +
            (["none", "Daemon", "local8"] if r.random() < self.perr * 3
             else [])))
        self.opt(d, "filter", lambda: r.choice(
            ["debug", "info", "warning", "error", "critical"] +
            (["warn", "INFO", ""] if r.random() < self.perr * 3 else [])))
        # what would not be a valid file is another story
        for k in ("log_file", "syslog_socket"):
            if isinstance(d.get(k), str) and d[k][:1] not in ("@", "/"):
                del d[k]
        # rotation goes through all of the backups
        if d.get("log_file_backup") == 2 ** 70:
            d["log_file_backup"] = 2
        return self.extra(d)

    def extra(self, d):
        if self.r.random() < self.perr:
            d[self.r.choice(["foo", "Sockets", "minimum", 5, True])] = \
                self.r.choice(WRONG)
        return d

    def socket(self):
        r = self.r
        if r.random() < 0.4:
            return self.addr()
        d = {"addr": self.err(self.addr)}
        if r.random() < self.perr:
            del d["addr"]
        tls = {}
        for k in ("cert", "key", "tc", "crl"):
            if r.random() < 0.4:
                tls[k] = self.err(lambda: r.choice(
                    ["/etc/%s.pem" % k, "x y", ""]))
        a = d.get("addr")
        ok = isinstance(a, str) and a.split(":")[0] in ("tls", "utls")
        if ok and r.random() < 0.7 or r.random() < self.perr:
            d["tls"] = self.err(lambda: self.extra(tls))
        return self.extra(d)

    def domain(self):
        r, d = self.r, {}
        self.opt(d, "name", lambda: r.choice(["dom", "", "\u00e5 b", "d0"]))
        def lim(a, b):
            def f():
                x = {}
                self.opt(x, "min", lambda: r.choice(a))
                self.opt(x, "max", lambda: r.choice(b))
                return self.extra(x)
            return f
        bad = r.random() < self.perr * 2
        self.opt(d, "protocol_version",
                 lim([2, 3, 1, 4, 0], [2, 3, 4, 1, -1]) if bad else
                 r.choice([lim([2], [2, 3]), lim([3], [3]),
                           lim([2, 3], [3])]))
        self.opt(d, "idle", lim([1, 0, 5, 31], [3, 1, 40, 0, -5]) if bad
                 else lim([1, 2, 4, 7], [7, 30, 31, 100, 2 ** 40]))
        if r.random() < (0.3 if "idle" not in d or
                         (isinstance(d["idle"], dict) and
                          "max" not in d["idle"]) else self.perr):
            d["max_idle_time"] = self.err(lambda: r.choice([7, 30, 50, 4]))
        name = r.choice(["sockets", "sockets", "addrs"])
        if r.random() >= self.perr:
            d[name] = self.err(lambda: [self.socket() for _ in
                                        range(r.choice([1, 1, 2, 3]))])
        if r.random() < self.perr:
            d[r.choice(["sockets", "addrs"])] = [self.addr()]
        return self.extra(d)

    def limits(self):
        r, d = self.r, {}
        for k in ("clients", "services", "subscriptions"):
            self.opt(d, k, lambda: r.choice([0, 1, 10, 4711, 2 ** 40]))
        if r.random() < self.perr:
            d[r.choice(["Clients", "foo", 3])] = 1
        return d

    def doc(self):
        d = {}
        r = self.r
        if r.random() < 0.9:
            d["domains"] = self.err(lambda: [
                self.err(self.domain) for _ in range(r.choice([1, 1, 2, 3]))])
        if r.random() < 0.6:
            d["log"] = self.err(self.log)

        def res():
            x = {}
            self.opt(x, "user", self.limits)
            self.opt(x, "total", self.limits)
            return self.extra(x)
        if r.random() < 0.6:
            d["resources"] = self.err(res)
        if r.random() < self.perr / 3:
            return r.choice([None, [], "x", 3, [d]])
        return self.extra(d)

    def options(self):
        r = self.r
        opts = []
        for _ in range(r.choice([0, 1, 2, 5])):
            bad = r.random() < self.perr * 2
            o = r.choice(["-s", "-n", "-o", "-b", "-x", "-u", "-l", "-y",
                          "-c", "-c", "-m"])
            if o in "-s-n":
                opts.append([o])
                continue
            nums = ["x", "1.5", "-1", "0x10"] if bad else \
                ["0", "1", "5", "70000", "1099511627776"]
            v = {"-o": lambda: r.choice(["@c.log", "@d.log"]),
                 # rotation goes through all of the backups
                 "-b": lambda: r.choice([x for x in nums if len(x) < 4]), "-x": lambda: r.choice(nums),
                 "-c": lambda: r.choice(nums),
                 "-u": lambda: r.choice(["/dev/log", "/sock/y"]),
                 "-l": lambda: r.choice(["foo", "Debug"] if bad else
                                        ["debug", "error", "critical"]),
                 "-y": lambda: r.choice(["foo", "LOCAL0"] if bad else
                                        ["user", "local3", "authpriv"]),
                 "-m": lambda: "+".join(self.addr() for _ in range(
                     r.choice([1, 2, 3])))}[o]()
            opts.append([o, v])
        if r.random() < self.perr / 2:
            opts.append(["-q"])
        return opts


def generate(seed):
    g = Gen(seed)
    r = g.r
    docs, opts = {}, g.options() if r.random() < 0.5 else []
    if r.random() < 0.85:
        doc = ["tree", g.doc(), r.random() < 0.5]
        if r.random() < g.perr:
            import yaml
            d = doc[1]
            if isinstance(d, dict) and isinstance(d.get("log"), dict):
                # there is no scratch directory for it
                d["log"].pop("log_file", None)
            t = yaml.safe_dump(d).encode()
            k = r.randrange(len(t) + 1)
            t = t[:k] + r.choice([b"\xff", b"}", b"\t", b": :", b"%", b"@",
                                  b"!!python/object:x", b"*x"]) + t[k:]
            doc = r.choice([["text", t.decode("latin-1")], ["dir"],
                            ["missing"]])
        docs["c1"] = doc
        opts.insert(r.randint(0, len(opts)), ["-f", "@c1"])
        if r.random() < 0.1:
            docs["c2"] = ["tree", g.doc()]
            # which of them counts is for the command line to say, but
            # others need not even be read
            opts.insert(r.randint(0, len(opts)), ["-f", "@c2"])
    args = [g.addr() for _ in range(r.choice([0, 0, 0, 1, 2]))] \
        if docs else [g.addr() for _ in range(r.choice([0, 1, 1, 3]))]
    return {"docs": docs, "opts": opts, "args": args}


def tree(n):
    """From what the model prints"""
    if n["t"] == "map":
        # an empty function is the same as an empty sequence
        return {k: tree(v) for k, v in dict(n["m"]).items()}
    if n["t"] == "list":
        return [tree(x) for x in n["l"]]
    return {"null": None, "float": 1.5, "int": n.get("i"), "bool": n.get("b"),
            "str": n.get("v")}[n["t"]]


def check_batch(cases, src, sample=0):
    cov = core.Cov()
    trs = [run(c) for c in cases]
    (gen, dist), vs = traces.judge("ConfTrace", trs)
    cov.add("configurations_" + src, len(cases))
    for t in trs:
        cov.add("outcome_" + t["e"]["k"])
    viol = []
    for c, t, v in zip(cases, trs, vs):
        if v is None:
            cov.add("traces_validated_against_impl")
            continue
        viol.append(core.Violation(
            "%s: %s" % (v[1], core.clip(c)), v[2],
            {"kind": "confcheck", "case": c, "why": v[1],
             "outcome": t["e"]}))
    for c, t in list(zip(cases, trs))[:sample]:
        cov.samples.append({"configuration": core.clip(c),
                            "outcome": core.clip(t["e"])})
    return cov, viol[:5]


def job_random(seed, n, sample):
    return check_batch([generate(seed + i) for i in range(n)], "random",
                       sample)


def job_model(model):
    out, rc = tlc.run("ConfMC", "mc/conf_%s.cfg" % model, workers=4,
                      heap="4g")
    if rc != 0:
        raise tlc.TlcError(out[-3000:])
    cov = core.Cov()
    gen, dist = tlc.stats(out)
    cov.add("states", dist)
    cov.add("transitions", gen)
    cases = []
    for ln in tlaval.printed(out, "C"):
        c = tlaval.parse(ln)[1]
        case = {"docs": {}, "opts": [], "args": list(c["args"])}
        if c["doc"]["t"] != "none":
            case["docs"]["c"] = ["tree", tree(c["doc"])]
            case["opts"].append(["-f", "@c"])
        for o in c["opts"]:
            case["opts"].append([o["o"]] if o["v"] == "" else
                                [o["o"], o["v"]])
        cases.append(case)
    viol = []
    for part in core.chunks(cases, 1500):
        c, v = check_batch(part, "of_the_model", 0)
        cov.merge(c)
        viol += v
    return cov, viol


MODELS = ("versions", "idle", "sockets", "log", "limits", "cmd")


def check(ctx):
    jobs = [(job_model, (m,)) for m in MODELS]
    for k in range(ctx.pick(8, 200)):
        jobs.append((job_random, (ctx.seed * 1000003 + k * 2000, 1000,
                                  3 if k == 0 else 0)))
    core.run_jobs(ctx, jobs, procs=4)


def replay(d, n):
    t = run(d["case"])
    st, vs = traces.judge("ConfTrace", [t])
    v = vs[0]
    print(json.dumps(d["case"]))
    print(json.dumps(t, indent=1))
    print("wrong: %s" % v[1] if v else "accepted")
    return 1 if v else 0
