"""Turns recordings of the server into what PafTrace reads.

This is the abstraction function of the refinement check.  It is meant to be
as dumb as possible: it decodes JSON, names things, and keeps numbers within
the range TLC can deal with (order is preserved).  Whether a message is valid,
what it means and what it should contain is decided by the specification.
"""

import json
import math

from fakeenv import TICK, BASE

BIG = 1000000
I64 = (1 << 63) - 1

INT_FIELDS = {"ta-id", "client-id", "service-id", "subscription-id",
              "generation", "ttl", "time", "protocol-version",
              "protocol-minimum-version", "protocol-maximum-version"}

OUT_NAMES = {"ta-cmd": "cmd", "ta-id": "ta", "msg-type": "type",
             "fail-reason": "reason", "service-id": "sid",
             "generation": "gen", "service-props": "props", "ttl": "ttl",
             "orphan-since": "orphan", "subscription-id": "sub",
             "filter": "filt", "client-id": "cid", "client-address": "addr",
             "time": "time", "latency": "lat", "idle": "idle",
             "match-type": "mtype", "track-type": "ttype",
             "protocol-version": "ver"}


class Dup(Exception):
    pass


def codes(s):
    return [ord(c) for c in s]


class Pool:
    def __init__(self):
        self.idx = {}
        self.items = []

    def get(self, key, item):
        i = self.idx.get(key)
        if i is None:
            self.items.append(item)
            i = len(self.items)
            self.idx[key] = i
        return i


class Pools:
    """Filters and property sets of a batch of traces."""

    def __init__(self):
        self.filters = Pool()
        self.props = Pool()

    def filter(self, s):
        return self.filters.get(s, codes(s))

    def prop(self, p):
        """p: as in JSON; a canonical set of key/value pairs"""
        pairs = set()
        for k, vs in p.items():
            for v in vs:
                pairs.add((k, "s", v) if isinstance(v, str)
                          else (k, "i", str(v)))
        key = tuple(sorted(pairs))
        item = [{"k": codes(k), "t": t, "v": codes(v)} for k, t, v in key]
        return self.props.get(key, item)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_props(v):
    if not isinstance(v, dict):
        return False
    for vs in v.values():
        if not isinstance(vs, list):
            return False
        for x in vs:
            if not isinstance(x, str) and not is_int(x):
                return False
    return True


def load(raw):
    """The JSON value, or raises ValueError"""
    return json.loads(raw.decode("utf-8"))


class Ints:
    """Order preserving renaming of large integers"""

    def __init__(self):
        self.seen = set()
        self.map = None

    def note(self, v):
        if is_int(v) and BIG <= v <= I64:
            self.seen.add(v)

    def freeze(self):
        self.map = {v: BIG + i for i, v in enumerate(sorted(self.seen))}

    def get(self, v):
        return v if v < BIG else self.map[v]


def in_desc(name, v, ints, pools):
    if v is None:
        return {"t": "null"}
    if isinstance(v, str):
        d = {"t": "str", "v": v if len(v) <= 200 else "?"}
        if name == "filter":
            d["f"] = pools.filter(v)
            d["v"] = "?"
        return d
    if is_int(v):
        if 0 <= v <= I64:
            return {"t": "int", "v": ints.get(v)}
        return {"t": "num"} if v > I64 else {"t": "bad"}
    if isinstance(v, float) and v >= 0:
        return {"t": "num"}
    if name == "service-props" and is_props(v):
        return {"t": "props", "v": pools.prop(v)}
    return {"t": "bad"}


def ticks(v):
    """Seconds since the epoch of the virtual clock, to ticks"""
    x = v * TICK
    if isinstance(v, float) and not math.isfinite(v):
        return None
    if x != int(x) or not 0 <= x < 2000000000:
        return None
    return int(x)


def near_ticks(v):
    if isinstance(v, float) and not math.isfinite(v):
        return None
    x = v * TICK
    if not 0 <= x < 2000000000:
        return None
    return int(round(x))


def out_msg(raw, ints, pools):
    def bad(why):
        return {"x": why}
    try:
        m = load(raw)
    except (ValueError, RecursionError):
        return bad("not JSON")
    if not isinstance(m, dict):
        return bad("not an object")
    r = {}
    for name, v in m.items():
        key = OUT_NAMES.get(name)
        if key is None:
            return bad("field %s" % name)
        if name in INT_FIELDS:
            if not is_int(v) or not 0 <= v <= I64:
                return bad("value of %s" % name)
            if name == "time":
                v -= BASE
                if not 0 <= v < BIG:
                    return bad("value of time")
            r[key] = ints.get(v)
        elif name == "service-props":
            if not is_props(v):
                return bad("value of service-props")
            for vs in v.values():
                if len(vs) == 0 or len(set(map(repr, vs))) != len(vs):
                    return bad("empty or repeated property values")
            r[key] = pools.prop(v)
        elif name == "orphan-since":
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return bad("value of orphan-since")
            x = ticks(v - BASE)
            if x is None:
                return bad("value of orphan-since")
            r[key] = x
        elif name in ("latency", "idle"):
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return bad("value of %s" % name)
            x = near_ticks(v)
            if x is None:
                return bad("value of %s" % name)
            r[key] = x
        elif not isinstance(v, str):
            return bad("value of %s" % name)
        elif name == "filter":
            r[key] = pools.filter(v)
        else:
            r[key] = v
    for key in ("cmd", "ta", "type"):
        if key not in r:
            return bad("no %s" % key)
    return r


def kind_of(addr):
    for k in ("tls", "tcp"):
        if addr.startswith(k):
            return k
    return "other"


def peer_desc(p):
    addr = p["addr"]
    kind = kind_of(addr)
    ip = ""
    if kind != "other":
        ip = addr.split(":", 1)[1].rsplit(":", 1)[0]
    ski = p.get("ski")
    return {"addr": addr, "kind": kind, "ip": ip,
            "ski": "" if ski is None else ski.hex()}


def lim(sc, cls):
    d = sc.get(cls, {})
    return {k: -1 if d.get(k) is None else d[k]
            for k in ("clients", "services", "subscriptions")}


def normalise(sc, trace, pools):
    """One trace per domain"""
    ints = Ints()
    for ev in trace:
        if ev["e"] in ("recv", "send"):
            try:
                m = load(ev["raw"])
            except (ValueError, RecursionError):
                continue
            if isinstance(m, dict):
                for name, v in m.items():
                    ints.note(v)
    ints.freeze()

    doms = sc["domains"]
    sock_dom = {}
    for d, dom in enumerate(doms):
        for a in dom["sockets"]:
            sock_dom[a] = d
    out = []
    for d, dom in enumerate(doms):
        cfg = {"vmin": dom.get("vmin", 2), "vmax": dom.get("vmax", 3),
               "imin": dom.get("imin", 4), "imax": dom.get("imax", 30),
               "user": lim(sc, "user"), "total": lim(sc, "total")}
        out.append({"cfg": cfg, "ev": [], "nsocks": len(dom["sockets"])})
    cdom = {}
    for ev in trace:
        e = ev["e"]
        if e == "accept":
            d = sock_dom[ev["sock"]]
            cdom[ev["c"]] = d
            out[d]["ev"].append({"e": e, "c": ev["c"],
                                 "peer": peer_desc(ev["peer"])})
        elif e == "accerr":
            pass
        elif e == "recv":
            try:
                m = load(ev["raw"])
                ok = isinstance(m, dict)
            except (ValueError, RecursionError):
                ok = False
            w = {"obj": ok, "f": {}}
            if ok:
                w["f"] = {n: in_desc(n, v, ints, pools)
                          for n, v in m.items()}
            out[cdom[ev["c"]]]["ev"].append({"e": e, "c": ev["c"], "w": w})
        elif e == "send":
            out[cdom[ev["c"]]]["ev"].append(
                {"e": e, "c": ev["c"], "m": out_msg(ev["raw"], ints, pools)})
        elif e in ("eof", "close"):
            out[cdom[ev["c"]]]["ev"].append({"e": e, "c": ev["c"]})
        elif e == "sclose":
            out[sock_dom[ev["sock"]]]["ev"].append(
                {"e": e, "sock": ev["sock"]})
        elif e == "tick":
            for d in range(len(doms)):
                out[d]["ev"].append({"e": e, "t": ev["t"],
                                     "stall": ev["stall"],
                                     "blk": [c for c in ev["blk"]
                                             if cdom[c] == d]})
        elif e == "quiet":
            for d in range(len(doms)):
                out[d]["ev"].append(
                    {"e": e,
                     "pend": [c for c in ev["pend"] if cdom[c] == d],
                     "blk": [c for c in ev["blk"] if cdom[c] == d],
                     "pacc": int(any(sock_dom[a] == d
                                     for a in ev["pacc"]))})
        elif e in ("poll", "stop"):
            for d in range(len(doms)):
                out[d]["ev"].append({"e": e})
        elif e == "stopped":
            for d in range(len(doms)):
                out[d]["ev"].append({"e": e, "left": ev["left"]})
        elif e == "crash":
            for d in range(len(doms)):
                out[d]["ev"].append({"e": e, "what": ev["what"][:200]})
        else:
            raise ValueError("unknown event %r" % ev)
    for tr in out:
        tr["ev"] = compress(tr["ev"])
    return out


def compress(evs):
    """Drop polls which follow a poll or quiet directly, and quiets which
    have been preceded by nothing of interest"""
    res = []
    for ev in evs:
        if ev["e"] == "poll" and res and res[-1]["e"] in ("poll", "quiet"):
            continue
        if ev["e"] == "quiet" and res and \
                res[-1]["e"] in ("poll",):
            res.pop()
        if ev["e"] == "quiet" and res and res[-1] == ev:
            continue
        res.append(ev)
    return res
