"""Behaviours of the specification, driven through the real server.

TLC explores a small world of PafMC and prints every transition.  Paths
through this graph which cover its edges become scenarios."""

import collections
import os
import re
import tempfile

import tlaval
import tlc

PEER = {"u": [{"addr": "tcp:10.0.0.1:1001", "transport": "tcp"},
              {"addr": "tcp:10.0.0.1:1002", "transport": "tcp"},
              {"addr": "tcp:10.0.0.1:1003", "transport": "tcp"}],
        "v": [{"addr": "tcp:10.0.0.2:1001", "transport": "tcp"}]}
PROPS = {1: {"name": ["one"]}, 2: {"name": ["two"], "x": [1, 2]}}
FILT = {1: "(name=one)", 2: "(&(name=t*)(x>1))", 99: "(name=one"}

# as in PafMC
WORLDS = {
    "mirror": {}, "owner": {}, "owner2": {}, "users": {},
    "limits": {"user": {"clients": 1, "services": 1, "subscriptions": 1},
               "total": {"clients": 2, "services": 2, "subscriptions": 1}},
    "limits2": {"user": {"clients": 2, "services": 2, "subscriptions": 1},
                "total": {"clients": 3, "services": 2, "subscriptions": 2}},
    "admission": {"total": {"clients": 2}},
    "versions": {"vmin": 3},
    "life": {},
    "idle": {"imin": 4, "imax": 20},
}


def explore(model, emit, timeout=800, workers=8):
    cfg = open(os.path.join(tlc.SPEC, "mc", model + ".cfg")).read()
    cfg = cfg.replace("Emit = FALSE", "Emit = %s" % str(emit).upper())
    fd, path = tempfile.mkstemp(prefix="paf-mc-", suffix=".cfg")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(cfg)
        out, rc = tlc.run("PafMC", path, timeout=timeout, workers=workers)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError("%s: %s" % (model, out[-5000:]))
    return out


EDGE = re.compile(r'^<<\s*"E", (-?\d+), (.*), (-?\d+)\s*>>$')
START = re.compile(r'^<<\s*"I", (-?\d+)\s*>>$', re.M)


class Graph:
    def __init__(self, out):
        edges = collections.defaultdict(dict)   # src -> act -> dst
        for ln in tlaval.printed(out, "E"):
            m = EDGE.match(ln)
            edges[int(m.group(1))][m.group(2)] = int(m.group(3))
        self.succ = collections.defaultdict(list)
        for a in sorted(edges):
            self.succ[a] = sorted(edges[a].items())
        self.n_edges = sum(len(x) for x in self.succ.values())
        self.init = int(START.search(out).group(1))
        self.parsed = {}

    def act(self, text):
        if text not in self.parsed:
            self.parsed[text] = tlaval.parse(text)
        return self.parsed[text]

    def tours(self, rnd, length, budget):
        """Paths from the initial state, preferring edges not yet covered,
        until all are covered or budget edges have been used"""
        left = collections.defaultdict(set)
        for a, es in self.succ.items():
            left[a] = set(range(len(es)))
        n_left = self.n_edges
        used = 0
        res = []
        while n_left > 0 and used < budget:
            path = []
            at = self.init
            while len(path) < length and n_left > 0:
                if left[at]:
                    i = rnd.choice(sorted(left[at]))
                    k, b = self.succ[at][i]
                    left[at].discard(i)
                    n_left -= 1
                    path.append(k)
                    at = b
                    continue
                hop = self.nearest(at, left, length - len(path), rnd)
                if hop is None:
                    break
                for i in hop:
                    k, at = self.succ[at][i]
                    path.append(k)
            if not path:
                break
            used += len(path)
            res.append([self.act(k) for k in path])
        return res, self.n_edges - n_left

    def nearest(self, at, left, limit, rnd):
        prev = {at: None}
        q = collections.deque([at])
        while q:
            x = q.popleft()
            if left[x] and x != at:
                path = []
                while prev[x] is not None:
                    x, i = prev[x]
                    path.append(i)
                path.reverse()
                return path if len(path) < limit else None
            idx = list(range(len(self.succ[x])))
            rnd.shuffle(idx)
            for i in idx:
                y = self.succ[x][i][1]
                if y not in prev:
                    prev[y] = (x, i)
                    q.append(y)
        return None


def scenario(model, tour, seed):
    w = WORLDS[model]
    dom = {"sockets": ["ux:d0s0"], "imin": w.get("imin", 4),
           "imax": w.get("imax", 10000), "vmin": w.get("vmin", 2)}
    sc = {"domains": [dom], "seed": seed, "jitter": "rand", "order": "all",
          "tour": model}
    for k in ("user", "total"):
        if k in w:
            sc[k] = w[k]
    num = 0
    at = {}          # slot -> connection number
    nta = {}
    live = {}        # (connection, model's transaction) -> actual one
    steps = []

    def connect(slot, user):
        nonlocal num
        num += 1
        at[slot] = num
        nta[num] = 0
        peers = PEER[user]
        return ["conn", num, "ux:d0s0", peers[slot % len(peers)]]

    def message(slot, r):
        c = at[slot]
        key = (c, r["ta"])
        if r["type"] == "inform" or key in live:
            ta = live.get(key, 77)
        else:
            ta = nta[c]
            nta[c] += 1
            if r["cmd"] in ("subscribe", "track"):
                live[key] = ta
        m = {"ta-cmd": r["cmd"], "ta-id": ta, "msg-type": r["type"]}
        for a, b in (("cid", "client-id"), ("sid", "service-id"),
                     ("gen", "generation"), ("ttl", "ttl"),
                     ("sub", "subscription-id"), ("ttype", "track-type"),
                     ("vmin", "protocol-minimum-version"),
                     ("vmax", "protocol-maximum-version")):
            if a in r:
                m[b] = r[a]
        if "props" in r:
            m["service-props"] = PROPS[r["props"]]
        if r.get("filt", 0) != 0:
            m["filter"] = FILT[r["filt"]]
        return ["msg", c, m]

    for a in tour:
        op = a["op"]
        if op == "conn":
            steps.append([connect(a["c"], a["u"])])
        elif op == "join":
            x = connect(a["c"], a["u"])
            steps.append([x, message(a["c"], a["r"])])
        elif op == "eof":
            steps.append([["eof", at[a["c"]]]])
        elif op == "req":
            r = a["r"]
            steps.append([message(a["c"], r)])
            if r["cmd"] == "unsubscribe":
                # if it succeeds, the transaction of the subscription is over
                live.pop((at[a["c"]], 10 + r["sub"]), None)
        elif op == "tick":
            steps.append([["adv", a["d"]]])
    sc["steps"] = steps
    return sc
