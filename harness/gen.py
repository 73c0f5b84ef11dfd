"""Random scenarios for the server, weighted towards a property.

These only produce inputs.  What the right reactions are is the business of
the specification."""

import json
import random

TICK = 1024

PEERS = {
    "ux": {"addr": "ux:client", "transport": "ux"},
    "a1": {"addr": "tcp:10.0.0.1:1001", "transport": "tcp"},
    "a2": {"addr": "tcp:10.0.0.1:1002", "transport": "tcp"},
    "b": {"addr": "tcp:10.0.0.2:1001", "transport": "tcp"},
    "v6": {"addr": "tcp:[fe80::1]:77", "transport": "tcp"},
    "v6b": {"addr": "tcp:[fe80::2]:77", "transport": "tcp"},
    "t1": {"addr": "tls:10.0.0.1:4001", "transport": "tls",
           "ski": b"\x01\x02\x03"},
    "t2": {"addr": "tls:10.0.0.2:4001", "transport": "tls",
           "ski": b"\x01\x02\x03"},
    "t3": {"addr": "tls:10.0.0.1:4002", "transport": "tls",
           "ski": b"\x01\x02\xff"},
    "t4": {"addr": "tls:10.0.0.2:4002", "transport": "tls", "ski": b""},
    "tn": {"addr": "tls:10.0.0.1:4003", "transport": "tls", "ski": None},
}
# user groups: who shares a user with whom
ONE_USER = [["ux"], ["a1", "a2"], ["t1", "t2"], ["tn", "a1"]]

PROPS = [
    {}, {"a": ["b"]}, {"a": ["c"]}, {"a": ["b", "c"]}, {"b": [1]},
    {"b": [2]}, {"a": ["b"], "b": [1]}, {"a": ["1"]}, {"a": [1]},
    {"a": [1, "1"]}, {"name": ["foo"], "b": [-3]}, {"a": ["bb", 7]},
    {"x=y": ["(*)"]}, {"name": ["a longer name"], "a": ["", "z"]},
]
FILTERS = [
    "(a=b)", "(a=*)", "(!(a=b))", "(&(a=b)(b=1))", "(|(a=c)(b=2))",
    "(b>1)", "(b<2)", "(a=b*)", "(a=*b)", "(name=*o*)", "(!(b>0))",
    "(a=1)", "(x\\=y=*\\**)", "(name=f*o)", "(&(a=*)(!(a=c))(!(b=1)))",
]
BAD_FILTERS = ["", "(", "a=b", "(a=b", "(a=)", "(=b)", "(&(a=b))", "(a>x)",
               "(a=b)x", "(a=**)", "(!a=b)", "(a\\b=c)", "(|)", "()", "(a)"]

I64 = (1 << 63) - 1


def M(cmd, ta, typ="request", **kw):
    d = {"ta-cmd": cmd, "ta-id": ta, "msg-type": typ}
    for k, v in kw.items():
        d[k.replace("_", "-")] = v
    return d


BASE_W = {
    "conn": 6, "hello": 2, "eof": 3, "rst": 1,
    "pub_new": 6, "pub_up": 4, "pub_same": 3, "pub_low": 1, "pub_diff": 1,
    "unpub": 3, "sub": 5, "unsub": 2,
    "services": 3, "subscriptions": 1, "clients": 1, "ping": 1,
    "track": 1, "tq": 1, "tr": 0.3,
    "adv_s": 3, "adv_m": 3, "adv_l": 1, "stall": 1,
    "block": 0.3, "credit": 0.3, "spur": 0.2, "accerr": 0.1,
}

PROFILES = {
    "C01": dict(w={"sub": 12, "unsub": 4, "pub_up": 10, "pub_new": 8,
                   "unpub": 5, "eof": 5, "clients": 0, "ping": 0,
                   "track": 0, "tq": 0, "tr": 0, "adv_m": 6},
                nsids=4, subfilt=0.7),
    "C02": dict(w={"services": 10, "subscriptions": 8, "clients": 10,
                   "track": 4, "eof": 5, "adv_m": 5}, auto=0.8,
                versions=[(2, 3), (2, 2), (3, 3)]),
    "C03": dict(w={"pub_same": 12, "pub_up": 10, "pub_low": 6, "pub_diff": 8,
                   "pub_new": 4, "services": 6, "sub": 4, "eof": 4,
                   "conn": 8}, nsids=2, ncids=3),
    "C04": dict(w={"eof": 9, "rst": 4, "conn": 14, "pub_same": 8,
                   "pub_up": 6, "services": 6, "bad": 2, "adv_m": 5,
                   "adv_l": 3, "track": 0, "clients": 0},
                nsids=3, ncids=3, ttls=[0, 2, 3, 5, 30, 1000, 100000]),
    "C05": dict(w={"eof": 9, "conn": 14, "pub_same": 7, "pub_up": 7,
                   "unpub": 4, "services": 4, "adv_s": 4, "adv_m": 10,
                   "adv_l": 4, "adv_x": 6, "stall": 4, "track": 0,
                   "clients": 0},
                nsids=5, ncids=4,
                ttls=[0, 1, 1, 2, 2, 3, 5, 8, 30, 1000, I64]),
    "C06": dict(w={"pub_same": 14, "pub_up": 8, "unpub": 5, "eof": 7,
                   "conn": 14, "sub": 5, "services": 6, "adv_l": 2,
                   "track": 0, "clients": 0},
                nsids=2, ncids=3, ttls=[1, 2, 5, 30, 1000]),
    "C07": dict(w={"conn": 14, "hello": 5, "pub_same": 8, "pub_up": 6,
                   "unpub": 8, "unsub": 8, "eof": 7, "services": 4,
                   "adv_m": 4, "track": 0},
                users="mixed", nsids=3, ncids=3, nsubs=3),
    "C08": dict(w={"conn": 16, "hello": 10, "eof": 6, "rst": 3, "track": 6,
                   "ping": 4, "adv_m": 8, "adv_i": 8, "adv_l": 3, "stall": 2,
                   "subscriptions": 0}, ncids=2, auto=0.5,
                idles=[(4, 30), (1, 3), (2, 2), (5, 10)]),
    "C09": dict(w={"conn": 10, "hello": 5, "sub": 9, "unsub": 6,
                   "pub_new": 10, "unpub": 7, "eof": 7, "pub_same": 5,
                   "pub_up": 5, "adv_m": 5, "adv_l": 4},
                limits=1.0, users="mixed2", nsids=6, ncids=5, nsubs=6,
                ttls=[0, 1, 2, 5, 30]),
    "C10": dict(w={"bad": 24, "badhello": 4, "conn": 14, "ping": 3,
                   "track": 3, "services": 4, "sub": 6}, watcher=True),
    "C11": dict(w={"reuse": 6, "badinform": 3, "sub": 8, "unsub": 8,
                   "track": 4, "tq": 4, "ping": 4, "clients": 3,
                   "services": 4, "subscriptions": 3, "conn": 9},
                versions=[(2, 3), (2, 2), (3, 3)], bigta=True),
    "C12": dict(w={"conn": 14, "conn0": 8, "hello": 16, "nohello": 8,
                   "ping": 4, "track": 3, "clients": 3, "badhello": 3,
                   "adv_s": 3},
                versions="wild", vranges=True, ncids=3, users="mixed2"),
    "C13": dict(w={"adv_i": 22, "adv_m": 6, "adv_l": 4, "adv_s": 3,
                   "ping": 6, "pub_new": 6, "pub_up": 5, "unpub": 5,
                   "pub_same": 5, "track": 4, "conn": 6, "sub": 1,
                   "stall": 2, "hello": 2},
                auto=0.4, versions=[(2, 3), (3, 3), (3, 3), (2, 2)],
                idles=[(4, 30), (1, 3), (2, 2), (3, 8), (1, 100)],
                ttls=[0, 1, 2, 3, 5, 6, 9, 40, 1000], ncids=4, nconn0=2),
    "C14": dict(w={"track": 10, "tq": 10, "tr": 1.5, "adv_i": 14, "ping": 4,
                   "clients": 5, "conn": 8, "hello": 6, "adv_m": 4,
                   "badinform": 1, "pub_new": 3, "unpub": 2, "stall": 1,
                   "eof": 1, "tqs": 1.5},
                auto=0.6, versions=[(2, 3), (3, 3), (3, 3)], ncids=3,
                idles=[(4, 30), (1, 3), (2, 2), (3, 8)],
                ttls=[1, 2, 5, 9, 100]),
    "C15": dict(w={"block": 6, "credit": 12, "services": 6, "burst": 6,
                   "pub_up": 8, "sub": 5, "spur": 3, "clients": 3,
                   "eof": 2, "rst": 2, "adv_m": 2, "tqs": 3},
                nsids=4, multi=4, auto=0.5),
    "C16": dict(w={"conn": 10, "conn0": 16, "accerr": 4, "hello": 8,
                   "eof": 8, "rst": 3, "adv_s": 8, "adv_h": 14, "stall": 2,
                   "ping": 3, "adv_l": 2, "bad": 1, "nohello": 2},
                limits="clients", ncids=3, socks=2, versions="wild"),
    "C20": dict(w={"conn": 14, "eof": 5, "services": 6, "clients": 5,
                   "subscriptions": 3, "adv_m": 6},
                ndoms=2, socks=2, nsids=2, ncids=2, nsubs=2, limits=0.5,
                users="mixed2"),
    "C23": dict(w={"conn": 12, "conn0": 6, "block": 3, "stop": 2.5,
                   "eof": 2, "burst": 1}, stop=True, ndoms=2, socks=2,
                limits=0.3, order="any"),
}


class Gen:
    def __init__(self, rnd, prof, length):
        self.r = rnd
        self.p = prof
        self.length = length
        w = dict(BASE_W)
        w.update(prof.get("w", {}))
        self.ops = [k for k, v in w.items() if v > 0]
        self.wts = [w[k] for k in self.ops]
        self.conns = {}
        self.num = 0
        self.reg = {}
        self.stopped = False
        r = rnd
        self.ndoms = r.randint(1, prof["ndoms"]) if "ndoms" in prof else 1
        nsocks = prof.get("socks", 1)
        ids = [1, 2, 3, 4, 5, 6, 7, 8]
        if r.random() < 0.15:
            ids = [0, 5, I64, 1 << 40, 1 << 62, 77, 1 << 20, 3]
        self.cids = ids[:prof.get("ncids", 4)]
        self.sids = ids[:prof.get("nsids", 4)]
        self.subids = ids[:prof.get("nsubs", 4)]
        self.ttls = prof.get("ttls", [0, 1, 2, 5, 10, 30, 1000])
        self.idles = r.choice(prof.get("idles", [(4, 30), (1, 4), (2, 60)]))
        self.users()
        doms = []
        for d in range(self.ndoms):
            dom = {"sockets": ["ux:d%ds%d" % (d, i)
                               for i in range(r.randint(1, nsocks))],
                   "imin": self.idles[0], "imax": self.idles[1]}
            if r.random() < 0.3:
                dom["name"] = "dom%d" % d
            if prof.get("vranges"):
                dom["vmin"], dom["vmax"] = r.choice([(2, 3), (2, 3), (2, 2),
                                                     (3, 3)])
            doms.append(dom)
        self.doms = doms
        self.sc = {"domains": doms, "steps": [],
                   "seed": r.randrange(1 << 30),
                   "jitter": r.choice(["rand", "rand", "low", "high"]),
                   "order": r.choice(["all", "all", "sub", "one"])}
        if "auto" in prof:
            self.sc["auto_reply"] = r.choice([0, prof["auto"], 1])
        self.limits()

    def users(self):
        r = self.r
        u = self.p.get("users")
        if u == "mixed":
            self.peers = r.choice([
                ["a1", "a2", "b"], ["t1", "t2", "t3"], ["t1", "tn", "a1"],
                ["ux", "a1"], ["v6", "v6b"], ["t1", "t4", "ux"],
                ["a1", "b", "t1", "t3", "ux", "tn"]])
        elif u == "mixed2":
            self.peers = r.choice([["a1", "a2", "b"], ["ux"],
                                   ["t1", "t2", "t3"], ["a1", "tn", "b"]])
        else:
            self.peers = r.choice(ONE_USER)
            if r.random() < 0.15:
                self.peers = self.peers + ["b"]

    def limits(self):
        r = self.r
        how = self.p.get("limits", 0.1)
        if how == "clients":
            if r.random() < 0.7:
                self.sc["total"] = {"clients": r.choice([1, 1, 2, 2, 3, 5,
                                                         0])}
            if r.random() < 0.3:
                self.sc["user"] = {"clients": r.choice([1, 2, 3])}
            return
        if r.random() < how:
            for cls in ("user", "total"):
                d = {}
                for k in ("clients", "services", "subscriptions"):
                    if r.random() < 0.4:
                        hi = 3 if cls == "user" else 4
                        d[k] = r.randint(1, hi) if r.random() < 0.93 else 0
                if d:
                    self.sc[cls] = d

    # -- pieces

    def ta(self, k):
        r = self.r
        if self.p.get("bigta") and r.random() < 0.1:
            return r.choice([I64, 1 << 33, 0, 5])
        x = k["nta"]
        k["nta"] += 1
        return x

    def versions(self):
        r = self.r
        v = self.p.get("versions", [(2, 3), (2, 3), (3, 3), (2, 2)])
        if v == "wild":
            if r.random() < 0.5:
                return r.choice([(2, 3), (3, 3), (2, 2)])
            return (r.choice([0, 1, 2, 3, 4, I64]),
                    r.choice([0, 1, 2, 3, 4, I64]))
        return r.choice(v)

    def hello_msg(self, k, cid=None):
        lo, hi = self.versions()
        if cid is None:
            cid = k["cid"]
        return M("hello", self.ta(k), client_id=cid,
                 protocol_minimum_version=lo, protocol_maximum_version=hi)

    def pick(self):
        """an open connection, preferably a recent one"""
        if not self.conns:
            return None
        ks = list(self.conns)
        if self.r.random() < 0.6:
            ks = ks[-3:]
        return self.r.choice(ks)

    def props(self):
        r = self.r
        if r.random() < 0.1:
            return {r.choice("abc"): [r.choice(["b", "c", 1, 2, -5, "1"])
                                      for _ in range(r.randint(0, 3))]
                    for _ in range(r.randint(0, 2))}
        return r.choice(PROPS)

    def filter(self):
        r = self.r
        if r.random() < 0.06:
            return r.choice(BAD_FILTERS)
        return r.choice(FILTERS)

    def new_conn(self, hello=True):
        r = self.r
        self.num += 1
        c = self.num
        d = r.randrange(self.ndoms)
        k = {"dom": d, "cid": r.choice(self.cids), "nta": r.choice([0, 1, 7]),
             "peer": r.choice(self.peers), "subs": {}, "track": None,
             "hs": hello}
        # prefer an id not in use
        used = {x["cid"] for x in self.conns.values() if x["dom"] == d}
        free = [i for i in self.cids if i not in used]
        if free and r.random() < 0.75:
            k["cid"] = r.choice(free)
        self.conns[c] = k
        ops = [["conn", c, r.choice(self.doms[d]["sockets"]),
                peer_json(PEERS[k["peer"]])]]
        if hello:
            ops.append(["msg", c, self.hello_msg(k)])
        return ops

    def drop(self, c):
        self.conns.pop(c, None)

    def pub(self, c, how):
        r = self.r
        k = self.conns[c]
        d = k["dom"]
        known = [s for s in self.sids if (d, s) in self.reg]
        if how == "pub_new" or not known:
            sid = r.choice(self.sids)
            if how == "pub_new":
                un = [s for s in self.sids if (d, s) not in self.reg]
                if un:
                    sid = r.choice(un)
            cur = self.reg.get((d, sid))
            gen = r.choice([0, 1, 1, 2, 5])
            if cur:
                gen = cur[0] + r.choice([0, 1])
            new = (gen, self.props(), r.choice(self.ttls))
        else:
            sid = r.choice(known)
            gen, props, ttl = self.reg[(d, sid)]
            if how == "pub_same":
                new = (gen, props, ttl)
            elif how == "pub_up":
                new = (gen + r.choice([1, 1, 2]),
                       self.props() if r.random() < 0.7 else props,
                       r.choice(self.ttls) if r.random() < 0.5 else ttl)
            elif how == "pub_low":
                new = (max(0, gen - r.choice([1, 1, 2])), self.props(), ttl)
            else:
                new = (gen, self.props() if r.random() < 0.5 else props,
                       r.choice(self.ttls) if r.random() < 0.6 else ttl)
        if new[0] > I64:
            new = (I64,) + new[1:]
        cur = self.reg.get((d, sid))
        if cur is None or new[0] > cur[0]:
            self.reg[(d, sid)] = new
        return M("publish", self.ta(k), service_id=sid, generation=new[0],
                 service_props=new[1], ttl=new[2])

    def idle_time(self):
        """around the interesting points of idle supervision"""
        r = self.r
        imin, imax = self.idles
        m = r.choice([imin, imax, imax] + [min(imax, max(imin, t))
                                           for t in self.ttls])
        f = r.choice([0.3, 0.44, 0.46, 0.5, 0.5, 0.54, 0.56, 0.9, 0.94,
                      0.96, 1.04, 1.06])
        return max(1, int(m * f * TICK) + r.randint(-3, 3))

    def op(self, name):
        r = self.r
        if name == "conn":
            return self.new_conn(True)
        if name == "conn0":
            return self.new_conn(False)
        if name.startswith("adv"):
            if name == "adv_s":
                t = r.randint(1, 300)
            elif name == "adv_m":
                t = r.choice([512, 1023, 1024, 1025, 1500, 2048, 2049, 3000])
            elif name == "adv_l":
                t = r.choice([5, 8, 10, 31, 40, 70]) * TICK + r.randint(-2, 2)
            elif name == "adv_h":
                t = r.choice([400, 900, 1020, 1024, 1030, 2000, 2040, 2050])
            elif name == "adv_x":
                t = r.choice([x for x in self.ttls if x < 100] or [1])
                t = max(1, t * TICK + r.choice([-1, 0, 1, -500]))
            else:
                t = self.idle_time()
            return [["adv", t]]
        if name == "stall":
            return [["stall", r.choice([1, 10, 500, 1024, 2100, 6000])]]
        if name == "stop":
            self.stopped = True
            return [["stop"]]
        if name == "accerr":
            d = r.randrange(self.ndoms)
            return [["accerr", r.choice(self.doms[d]["sockets"]),
                     r.choice([103, 24, 71])]]
        c = self.pick()
        if c is None:
            return self.new_conn(True)
        k = self.conns[c]
        if name == "eof":
            self.drop(c)
            return [["eof", c]]
        if name == "rst":
            self.drop(c)
            return [["rst", c, r.choice([104, 32, 110])]]
        if name == "block":
            return [["credit", c, r.choice([0, 0, 1, 3])]]
        if name == "credit":
            return [["credit", c, r.choice([None, None, 1, 2, 5, 63, 64,
                                            65, 128, 0])]]
        if name == "spur":
            return [["spur", c]]
        if name == "burst":
            n = r.choice([20, 70, 130, 140, 200])
            w = r.choice(["services", "clients", "ping", "services"])
            return [["msg", c, M(w, self.ta(k))] for _ in range(n)]
        if name == "tqs":
            if k["track"] is None:
                k["track"] = self.ta(k)
                ops = [["msg", c, M("track", k["track"])]]
            else:
                ops = []
            if r.random() < 0.4:
                ops.append(["credit", c, 0])
            n = r.choice([2, 2, 3, 5, 66, 130])
            return ops + [["msg", c, M("track", k["track"], "inform",
                                       track_type="query")]
                          for _ in range(n)]
        if name == "hello":
            x = r.random()
            if x < 0.4:
                return [["msg", c, self.hello_msg(k)]]
            if x < 0.7:
                cid = r.choice(self.cids)
                return [["msg", c, self.hello_msg(k, cid)]]
            # someone else shows up with the same id
            self.num += 1
            n = self.num
            k2 = {"dom": k["dom"], "cid": k["cid"], "nta": 1,
                  "peer": r.choice(self.peers), "subs": {}, "track": None,
                  "hs": False}
            self.conns[n] = k2
            return [["conn", n, r.choice(self.doms[k["dom"]]["sockets"]),
                     peer_json(PEERS[k2["peer"]])],
                    ["msg", n, self.hello_msg(k2)]]
        if name.startswith("pub"):
            return [["msg", c, self.pub(c, name)]]
        if name == "unpub":
            return [["msg", c, M("unpublish", self.ta(k),
                                 service_id=r.choice(self.sids))]]
        if name == "sub":
            sub = r.choice(self.subids)
            kw = {}
            if r.random() < self.p.get("subfilt", 0.5):
                kw["filter"] = self.filter()
            ta = self.ta(k)
            k["subs"][sub] = ta
            return [["msg", c, M("subscribe", ta, subscription_id=sub, **kw)]]
        if name == "unsub":
            subs = list(k["subs"])
            sub = r.choice(subs) if subs and r.random() < 0.7 \
                else r.choice(self.subids)
            k["subs"].pop(sub, None)
            return [["msg", c, M("unsubscribe", self.ta(k),
                                 subscription_id=sub)]]
        if name == "services":
            kw = {}
            if r.random() < 0.3:
                kw["filter"] = self.filter()
            return [["msg", c, M("services", self.ta(k), **kw)]]
        if name in ("subscriptions", "clients", "ping"):
            return [["msg", c, M(name, self.ta(k))]]
        if name == "track":
            ta = self.ta(k)
            if k["track"] is None:
                k["track"] = ta
            return [["msg", c, M("track", ta)]]
        if name in ("tq", "tr"):
            if k["track"] is None:
                k["track"] = self.ta(k)
                return [["msg", c, M("track", k["track"])]]
            return [["msg", c, M("track", k["track"], "inform",
                                 track_type="query" if name == "tq"
                                 else "reply")]]
        if name == "reuse":
            # an id which has been in use, or still is
            ta = r.choice(list(k["subs"].values()) + [k["track"] or 0,
                                                      max(0, k["nta"] - 1)])
            return [["msg", c, r.choice([
                M("ping", ta), M("services", ta), M("track", ta),
                M("subscribe", ta, subscription_id=r.choice(self.subids)),
                M("clients", ta)])]]
        if name == "badinform":
            ta = r.choice(list(k["subs"].values()) +
                          [k["track"] or 0, max(0, k["nta"] - 1),
                           k["nta"] + 5])
            return [["msg", c, r.choice([
                M("track", ta, "inform",
                  track_type=r.choice(["query", "reply", "x", ""])),
                M("subscribe", ta, "inform"), M("ping", ta, "inform"),
                M("services", ta, "inform"),
                M("track", ta, r.choice(["accept", "complete", "fail"])),
                M("ping", ta, "complete")])]]
        if name == "nohello":
            ops = self.new_conn(False)
            n = ops[0][1]
            kk = self.conns[n]
            ops.append(["msg", n, r.choice([
                M("ping", 0), M("services", 1), M("clients", 0),
                M("publish", 3, service_id=self.sids[0], generation=9,
                  service_props={}, ttl=3),
                M("unpublish", 3, service_id=self.sids[0]),
                M("subscribe", 0, subscription_id=self.subids[0]),
                M("unsubscribe", 0, subscription_id=self.subids[0]),
                M("track", 1), M("track", 1, "inform", track_type="query")])])
            if r.random() < 0.5:
                ops.append(["msg", n, self.hello_msg(kk)])
                kk["hs"] = True
            return ops
        if name == "badhello":
            m = self.hello_msg(k)
            return [["raw", c, mutate(r, m).hex()]]
        if name == "bad":
            kinds = ["pub_up", "unpub", "sub", "unsub", "services", "ping",
                     "tq", "clients", "pub_new", "track", "subscriptions"]
            ops = self.op(r.choice(kinds))
            m = [o for o in ops if o[0] == "msg" and o[1] == c]
            if not m:
                return ops
            raw = mutate(r, m[0][2])
            if r.random() < 0.15:
                return [["raw", c, raw.hex()], ["msg", c, m[0][2]]]
            return [["raw", c, raw.hex()]]
        raise ValueError(name)

    def generate(self):
        r = self.r
        steps = []
        for _ in range(self.p.get("nconn0", r.randint(1, 3))):
            steps.append(self.new_conn(True))
        while len(steps) < self.length and not self.stopped:
            n = 1
            if r.random() < 0.35:
                n = r.randint(2, self.p.get("multi", 4))
            ops = []
            for _ in range(n):
                got = self.op(r.choices(self.ops, self.wts)[0])
                if got[0][0] == "adv":
                    if not ops:
                        ops = got
                        break
                    continue
                ops.extend(got)
            if ops and ops[0][0] != "adv" and r.random() < 0.12:
                steps.append({"polls": r.randint(0, 3), "ops": ops})
            else:
                steps.append(ops)
        # finally, take stock
        if not self.stopped:
            for c in list(self.conns)[-3:]:
                k = self.conns[c]
                steps.append([["credit", c, None],
                              ["msg", c, M("services", 900001)],
                              ["msg", c, M("subscriptions", 900002)],
                              ["msg", c, M("clients", 900003)]])
            if self.p.get("stop") or r.random() < 0.05:
                steps.append([["stop"]])
        self.sc["steps"] = steps
        return self.sc


def peer_json(p):
    q = dict(p)
    if q.get("ski") is not None:
        q["ski"] = q["ski"].hex()
    return q


# ------------------------------------------------------------ malformed input

ODD = [None, True, False, -1, 0, 1, 1.5, 1e400, -1e400, float("nan"),
       1 << 63, (1 << 63) - 1, -(1 << 70), 10 ** 400, "", "x", "\ud800",
       "\0", [], [1], {}, {"a": 1}, {"a": [1.5]}, {"a": [None]},
       {"a": [[]]}, {"a": "b"}, {"a": [True]}, {"": []}, 1.0, 1e3]


def mutate(r, m):
    """bytes which are close to message m"""
    m = json.loads(json.dumps(m))
    x = r.random()
    if x < 0.55:
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.choice(list(m) + ["extra"])
            y = r.random()
            if y < 0.2 and k in m and len(m) > 1:
                del m[k]
            elif y < 0.3:
                m[r.choice(["x", "ttl", "filter", "client-id", "fail-reason",
                            "track-type", "service-props", ""])] = \
                    r.choice(ODD)
            elif y < 0.4 and k == "msg-type":
                m[k] = r.choice(["accept", "notify", "complete", "fail",
                                 "inform", "request", "Request", "reques"])
            elif y < 0.5 and k == "ta-cmd":
                m[k] = r.choice(["track", "hello", "pong", "", "services",
                                 "subscribe", "ta_terminated", "clients",
                                 "__init__"])
            else:
                m[k] = r.choice(ODD)
        return dumps(m)
    raw = dumps(m)
    if x < 0.65:
        n = r.randrange(len(raw))
        return raw[:n]
    if x < 0.75:
        n = r.randrange(len(raw))
        return raw[:n] + bytes([r.randrange(256)]) + raw[n + 1:]
    if x < 0.8:
        return raw + r.choice([b" ", b"\0", b"{}", b",", b"\n\n", raw])
    if x < 0.9:
        return r.choice([
            b"[]", b"1", b"null", b"true", b'"x"', b"[1]", b"{}", b"{",
            b"\xff\xfe", b"\xef\xbb\xbf" + raw, raw.decode().encode("utf-16"),
            b"NaN", b"-", b"[" * 2000, b'{"a":' * 3000, b"[" * 60000,
            b'{"ta-id":' + b"9" * 5000 + b"}", b" " * 60000, b"\0",
            raw.replace(b":", b"=", 1), raw[::-1], b"{" + raw + b"}",
            b'{"ta-cmd": "ping", "ta-id": 1e5, "msg-type": "request"}',
            b'{"ta-cmd": "ping", "ta-id": -0, "msg-type": "request"}',
        ])
    if m.get("ta-cmd") in ("subscribe", "services"):
        m["filter"] = r.choice([
            "(" * 5000, "(!" * 3000, "(!" * 3000 + "(a=b)" + ")" * 3000,
            "(&" * 4000, "(a=" + "*x" * 600 + ")", "\\" * 3000,
            "(a=" + "\\" * 1000, "\ud800", "(a>" + "9" * 4000 + ")",
            "(a=\0)", 5, None, ["(a=b)"], {"a": 1}, True, 1.5])
        return dumps(m)
    if m.get("ta-cmd") == "publish":
        m["service-props"] = r.choice([
            {"a": [10 ** 300]}, {"a": [-10 ** 300]}, {"k" * 3000: ["v"]},
            {"a": ["\ud800"]}, {"\ud800": [1]}, {"a": list(range(300))},
            {str(i): [i] for i in range(200)}, {"a": {"b": 1}}, [], "x",
            {"a": [1, 2.0]}, {"a": None}])
        return dumps(m)
    return raw


def dumps(m):
    return json.dumps(m).encode("utf-8", "surrogatepass")


def scenario(profile, seed, length=40):
    rnd = random.Random(seed)
    g = Gen(rnd, PROFILES[profile],
            max(4, int(length * rnd.uniform(0.4, 1.3))))
    return g.generate()
