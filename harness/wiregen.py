"""Every protocol message with one thing changed: systematically, each command
in each state of a session, each field absent, extra, or with each of a list
of values.  What is valid, and what comes of it, is decided by Wire.tla and
Paf.tla."""

import json
import random

VALUES = """
null true false -1 0 1 2 3 7 9223372036854775807 9223372036854775808
-9223372036854775808 1.0 1.5 -0 -0.0 1e2 1E400 -1e400 NaN Infinity "" "x" "1"
"\\ud800" "query" "reply" "(a=b)" "(a=" [] [1] ["a"] [[]] {} {"a":1}
{"a":"b"} {"a":null} {"a":[]} {"a":{}} {"a":[null]} {"a":[true]}
{"a":[1.5]} {"a":[1e3]} {"a":[[]]} {"a":[{}]} {"a":["x",null]}
{"a":[null,"x"]} {"a":["x",["y"]]} {"a":[1,2,true]} {"a":[1,false]}
{"a":[1,1.0]} {"a":[1,2,3,1.5]} {"a":["x","y",{"z":1}]}
{"a":[1],"b":[2,{}]} {"a":[1],"b":2} {"a":[1],"b":null}
{"b":7,"a":["x"]} {"":["x"]} {"a":["x"],"b":[1,-1]} {"a":["x","x",1,"1"]}
{"a":[99999999999999999999]} {"a":[-99999999999999999999]}
{"a":[""],"":[""]} {"a":[NaN]} {"a":["\\ud800"]}
""".split()

NAMES = ["client-id", "protocol-minimum-version", "protocol-maximum-version",
         "protocol-version", "service-id", "subscription-id", "generation",
         "ttl", "time", "service-props", "filter", "track-type",
         "fail-reason", "match-type", "orphan-since", "latency", "idle",
         "client-address", "x", "", "Ta-id"]

GOOD = {"client-id": "1", "protocol-minimum-version": "2",
        "protocol-maximum-version": "3", "protocol-version": "2",
        "service-id": "5", "subscription-id": "6", "generation": "4",
        "ttl": "9", "time": "1", "service-props": '{"a":["b",1]}',
        "filter": '"(a=b)"', "track-type": '"query"', "fail-reason": '"y"',
        "match-type": '"appeared"', "orphan-since": "1.5", "latency": "0.5",
        "idle": "0.5", "client-address": '"z"', "x": "1", "": "1",
        "Ta-id": "1"}

FIELDS = {
    "hello": ["client-id", "protocol-minimum-version",
              "protocol-maximum-version"],
    "publish": ["service-id", "generation", "service-props", "ttl"],
    "unpublish": ["service-id"], "subscribe": ["subscription-id"],
    "unsubscribe": ["subscription-id"], "services": [], "clients": [],
    "subscriptions": [], "ping": [], "track": [],
}
CMDS = list(FIELDS) + ["pong", "", "Ping", "get", "ta_terminated"]
TYPES = ["request", "inform", "notify", "accept", "complete", "fail",
         "Request", "", "query"]


def text(fields):
    return "{%s}" % ", ".join("%s: %s" % (json.dumps(k), v)
                              for k, v in fields)


def messages():
    """(state, JSON text); state: 0 before the handshake, else the version"""
    res = []
    for st in (0, 2, 3):
        for cmd in CMDS:
            base = [("ta-cmd", json.dumps(cmd)), ("ta-id", "77"),
                    ("msg-type", '"request"')] + \
                   [(n, GOOD[n]) for n in FIELDS.get(cmd, [])]
            res.append((st, text(base)))
            for ty in TYPES[1:]:
                for extra in ([], ["track-type"], ["fail-reason"],
                              ["protocol-version"]):
                    res.append((st, text(
                        [(k, json.dumps(ty) if k == "msg-type" else v)
                         for k, v in base] + [(n, GOOD[n]) for n in extra])))
            if cmd not in FIELDS:
                continue
            for k in range(len(base)):
                res.append((st, text(base[:k] + base[k + 1:])))
                for v in VALUES:
                    res.append((st, text(base[:k] + [(base[k][0], v)] +
                                         base[k + 1:])))
                res.append((st, text(base[::-1])))
            for n in NAMES:
                if n in FIELDS[cmd]:
                    continue
                res.append((st, text(base + [(n, GOOD[n])])))
                for v in (VALUES if n == "filter" and
                          cmd in ("subscribe", "services") else ["null"]):
                    res.append((st, text(base + [(n, v)])))
        for ty in VALUES + ['"Query"', '"notify"']:
            res.append((st, text([("ta-cmd", '"track"'), ("ta-id", "0"),
                                  ("msg-type", '"inform"'),
                                  ("track-type", ty)])))
    return sorted(set(res))


def scenarios(seed, size=40, share=1.0):
    rnd = random.Random(seed)
    ms = messages()
    rnd.shuffle(ms)
    ms = ms[:int(len(ms) * share)]
    peer = {"addr": "ux:foo", "transport": "ux"}

    def msg(c, cmd, ta, **kw):
        d = {"ta-cmd": cmd, "ta-id": ta, "msg-type": "request"}
        d.update({k.replace("_", "-"): v for k, v in kw.items()})
        return ["msg", c, d]

    def hello(c, cid, lo, hi):
        return msg(c, "hello", 1000, client_id=cid,
                   protocol_minimum_version=lo, protocol_maximum_version=hi)

    res = []
    for at in range(0, len(ms), size):
        steps = [[["conn", 1, "ux:a", peer], hello(1, 99, 3, 3),
                  msg(1, "subscribe", 2, subscription_id=1)]]
        c = 1
        for st, tx in ms[at:at + size]:
            c += 1
            ops = [["conn", c, "ux:a", peer]]
            if st:
                ops.append(hello(c, 1, st, st))
                if st == 3:
                    ops.append(msg(c, "track", 0))
            raw = tx.encode("utf-8").hex()
            ops.append(["raw", c, raw])
            ops.append(msg(c, "ping", 1001))
            steps.append(ops)
            steps.append([["eof", c]])
            if c % 8 == 0:
                # nobody has seen anything
                steps.append([msg(1, "services", c),
                              msg(1, "subscriptions", 1000 + c),
                              msg(1, "clients", 2000 + c)])
        steps.append([["adv", 10240]])
        steps.append([msg(1, "services", 900)])
        res.append(dict(domains=[{"sockets": ["ux:a"], "imin": 100,
                                  "imax": 100}], steps=steps,
                        name="wire", ids=["C10"], seed=seed + at,
                        order=["all", "one", "sub"][at // size % 3]))
    return res
