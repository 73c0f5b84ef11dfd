"""Directed scenarios: the histories of defects found, and some more whose
shape a random generator rarely hits."""

P = {"addr": "ux:foo", "transport": "ux"}
A = {"addr": "tcp:10.0.0.1:5", "transport": "tcp"}
A2 = {"addr": "tcp:10.0.0.1:9", "transport": "tcp"}
B = {"addr": "tcp:10.0.0.2:6", "transport": "tcp"}
S = 1024


def m(c, cmd, ta, typ="request", **kw):
    d = {"ta-cmd": cmd, "ta-id": ta, "msg-type": typ}
    d.update({k.replace("_", "-"): v for k, v in kw.items()})
    return ["msg", c, d]


def h(c, cid=None, ta=0, lo=2, hi=3):
    return m(c, "hello", ta, client_id=c if cid is None else cid,
             protocol_minimum_version=lo, protocol_maximum_version=hi)


def con(c, peer=P, sock="ux:a"):
    return ["conn", c, sock, peer]


def pub(c, ta, sid=5, gen=1, props=None, ttl=2):
    return m(c, "publish", ta, service_id=sid, generation=gen,
             service_props=props or {"a": ["b"]}, ttl=ttl)


def unpub(c, ta, sid=5):
    return m(c, "unpublish", ta, service_id=sid)


def sub(c, ta, b=1, **kw):
    return m(c, "subscribe", ta, subscription_id=b, **kw)


def raw(c, data):
    return ["raw", c, data.hex()]


def scenarios():
    c = [con(1), h(1)]
    res = []

    def go(ids, name, steps, **kw):
        dom = {"sockets": ["ux:a"]}
        for k in ("imin", "imax", "vmin", "vmax"):
            if k in kw:
                dom[k] = kw.pop(k)
        sc = dict(domains=[dom], steps=steps, name=name, ids=ids.split(),
                  **kw)
        res.append(sc)

    go("C10", "number as filter", [c, [sub(1, 1, filter=42)]])
    go("C10", "list as command", [c, [m(1, ["x"], 1)]])
    go("C10", "array", [c, [raw(1, b"[1]")]])
    go("C10", "null", [c, [raw(1, b"null")]])
    go("C10", "empty list of a field", [c, [m(1, "ping", [])]])
    go("C10", "deep JSON", [c, [raw(1, b"[" * 60000)]])
    go("C10", "deep JSON object", [c, [raw(1, b'{"a":' * 10000)]])
    go("C10", "infinity", [c, [raw(1, b'{"ta-cmd":"ping","ta-id":1e999,'
                                      b'"msg-type":"request"}')]])
    go("C10", "not a number", [c, [raw(1, b'{"ta-cmd":"ping","ta-id":NaN,'
                                          b'"msg-type":"request"}')]])
    go("C10", "half", [c, [raw(1, b'{"ta-cmd":"ping","ta-id":1.5,'
                                  b'"msg-type":"request"}')]])
    go("C10", "boolean", [c, [pub(1, 2, sid=True)]])
    go("C10", "boolean property", [c, [pub(1, 2, props={"a": [True]})]])
    go("C10 C17", "deep filters",
       [c, [sub(1, 1, filter="(!" * 3000 + "(a=b)" + ")" * 3000)],
        [sub(1, 2, filter="(&(a=b)" * 2000)],
        [sub(1, 3, b=3, filter="(!" * 90 + "(a=b)" + ")" * 90)],
        [pub(1, 4)]])
    go("C10 C17", "slow filter",
       [c, [pub(1, 1, props={"a": ["x" * 3000]})],
        [sub(1, 2, filter="(a=" + "*x" * 400 + "*y)")],
        [m(1, "services", 3, filter="(a=" + "*x" * 1000 + "*)")]])
    go("C10 C17", "substring filter and integer property",
       [c, [sub(1, 1, filter="(a=b*)")], [pub(1, 2, props={"a": [3]})],
        [pub(1, 3, sid=6, props={"a": [3, "bx"]})]])
    go("C17", "substring filter and newlines",
       [c, [pub(1, 1, props={"a": ["x\ny"]})],
        [m(1, "services", 2, filter="(a=x*y)")],
        [m(1, "services", 3, filter="(a=*\n*)")],
        [m(1, "services", 4, filter="(a=x*)")],
        [pub(1, 5, sid=6, props={"a": ["x\n"]})],
        [m(1, "services", 6, filter="(a=*x)")],
        [m(1, "services", 7, filter="(a=x)")]])
    go("C17", "escaped exclamation mark",
       [c, [pub(1, 1, props={"!a": ["!"]})],
        [m(1, "services", 2, filter="(\\!a=\\!)")],
        [m(1, "services", 3, filter="(!(\\!a=\\!))")],
        [sub(1, 4, filter="(\\!a=*)")]])
    go("C14 C10", "unknown track type",
       [c, [m(1, "track", 1)], [m(1, "track", 1, "inform", track_type="x")]])
    go("C14 C10", "unsolicited reply",
       [c, [m(1, "track", 1)],
        [m(1, "track", 1, "inform", track_type="reply")]])
    go("C11 C10", "inform of a subscription",
       [c, [sub(1, 1)], [m(1, "subscribe", 1, "inform")]])
    go("C11 C10", "track inform in a subscription",
       [c, [sub(1, 1)], [m(1, "track", 1, "inform", track_type="query")]])
    go("C11", "inform before the accept",
       [c, [m(1, "track", 1, "inform", track_type="query")]])
    go("C12 C10", "another client id", [c, [h(1, 7, 1)], [h(1, 1, 2)],
                                        [m(1, "ping", 3)]])
    go("C12", "another client id before success",
       [[con(1), h(1, 1, 0, 7, 9)], [h(1, 2, 1)], [h(1, 1, 2)],
        [m(1, "ping", 3)]])
    go("C01 C04 C05 C06 C13", "reclaimed, and lost again",
       [c, [pub(1, 1)], [["eof", 1]], [con(2), h(2, 1)], [pub(2, 1)],
        [["eof", 2]], [con(3), h(3)], [m(3, "services", 1)],
        [["adv", 1023]], [m(3, "services", 2)], [["adv", 10240]],
        [m(3, "services", 3)]])
    go("C04 C06", "taken over, then the former owner leaves",
       [c, [con(2), h(2)], [pub(1, 1), pub(1, 2, sid=6)],
        [pub(2, 1, gen=2)], [["eof", 1]], [m(2, "services", 2)],
        [["adv", 4 * S]], [m(2, "services", 3)], [con(3), h(3, 1)],
        [pub(3, 1, gen=2)], [["eof", 2]], [m(3, "services", 4)],
        [["eof", 3]], [con(4), h(4)], [m(4, "services", 1)]])
    go("C07", "client id of an absent client",
       [[con(1, A), h(1)], [pub(1, 1)], [["eof", 1]], [con(2, A), h(2)],
        [pub(2, 1)], [con(3, B), h(3, 1)], [con(4, B), h(4, 9)],
        [pub(4, 1)], [unpub(4, 2)]])
    go("C07", "last orphan of an absent client unpublished",
       [[con(1, A), h(1)], [pub(1, 1, ttl=1000)], [["eof", 1]],
        [con(2, A), h(2)], [unpub(2, 1)], [con(3, B), h(3, 1)]])
    go("C07 C05", "last orphan of an absent client expired",
       [[con(1, A), h(1)], [pub(1, 1, ttl=1)], [["eof", 1]],
        [con(3, B), h(3, 1)], [["adv", S]], [h(3, 1, 1)],
        [["eof", 3]], [con(4, A), h(4, 1)]])
    go("C16 C08", "somebody else's id, never completed",
       [c, [con(2), h(2, 1)], [["adv", 20480]], [m(1, "ping", 9)]])
    go("C16", "never said hello", [c, [con(2)], [con(3)],
                                   [["adv", 2 * S - 10]], [h(3, 3)],
                                   [["adv", 4 * S]], [m(3, "ping", 1)]])
    go("C02 C13", "listings",
       [c, [pub(1, 1), sub(1, 2, filter="(a=b)"),
            m(1, "subscriptions", 3), m(1, "services", 4),
            m(1, "clients", 5), m(1, "track", 6)], [["adv", 100000]]])
    go("C23", "stop", [c, [con(2)], [con(3), h(3)], [["eof", 3]],
                       [pub(1, 1)], [["stop"]]])
    go("C08 C14", "id claimed by another",
       [c, [m(1, "track", 1)], [["adv", 3 * S]], [con(2), h(2, 1)],
        [["adv", 20]], [h(2, 1, 1)], [["adv", 7 * S]], [["adv", 12 * S]],
        [con(3), h(3, 1)]], imax=20)
    go("C08", "id claimed by another, and the owner answers",
       [c, [m(1, "track", 1)], [["adv", 3 * S]], [con(2), h(2, 1)],
        [m(1, "track", 1, "inform", track_type="reply")], [["adv", 9 * S]],
        [m(1, "clients", 3)], [con(3), h(3, 1)]], imax=20, auto_reply=0)
    go("C13", "short TTL, then unpublished",
       [c, [pub(1, 1, ttl=4)], [["adv", S]], [unpub(1, 2)],
        [["adv", 8 * S]], [m(1, "ping", 4)], [["adv", 40 * S]]],
       imax=20, imin=4)
    go("C13", "version 2 is not supervised",
       [[con(1), h(1, 1, 0, 2, 2)], [pub(1, 1, ttl=1)],
        [["adv", 5000 * S]], [m(1, "services", 2)]], imax=20, imin=4)
    go("C05", "expiry of several", [
        c, [pub(1, 1, sid=1, ttl=3), pub(1, 2, sid=2, ttl=1),
            pub(1, 3, sid=3, ttl=2), pub(1, 4, sid=4, ttl=1)],
        [con(2, P), h(2, 2, 0, 2, 2), sub(2, 1)], [["eof", 1]],
        [["adv", 4 * S]]])
    go("C15", "backlog", [
        c, [con(2), h(2), sub(2, 1)], [["credit", 2, 0]]] +
        [[pub(1, 1 + i, gen=i + 1)] for i in range(140)] +
        [[m(2, "ping", 9)], [["credit", 2, 5]], [["credit", 2, 8]],
         [m(1, "ping", 900)], [["credit", 2, None]], [m(2, "ping", 10)]])
    many(go)
    for i, sc in enumerate(res):
        sc.setdefault("seed", i)
        sc["order"] = ["all", "one", "sub"][i % 3]
    return res


def take_stock(c, ta):
    return [m(c, "services", ta), m(c, "subscriptions", ta + 1),
            m(c, "clients", ta + 2)]


def many(go):
    """Large numbers of things, and long lives"""
    n = 150
    big = range(100, 100 + n)
    go("C01 C02 C04 C05 C06", "many services of a client lost at once",
       [[con(1), h(1)], [con(2), h(2)], [sub(2, 1)]] +
       [[pub(1, k, sid=k, ttl=1 + k % 3, props={"n": [k % 5]})
         for k in big if k % 3 == j] for j in range(3)] +
       [[sub(2, 2, b=2, filter="(n=3)")], [["eof", 1]], take_stock(2, 10),
        [["adv", 512]],
        [pub(2, 1000 + k, sid=k, ttl=1 + k % 3, props={"n": [k % 5]})
         for k in big if k % 7 == 0], [["adv", 512]], take_stock(2, 20),
        [["adv", S]], take_stock(2, 30), [["adv", S]], take_stock(2, 40),
        [con(3), h(3, 1)], take_stock(3, 50), [["eof", 2]],
        take_stock(3, 60), [["adv", 3 * S]], take_stock(3, 70)])
    go("C01 C02 C04 C09 C11", "many subscriptions of a client",
       [[con(1), h(1)], [con(2), h(2)], [pub(2, 1, sid=1)],
        [sub(1, 1 + k, b=k) for k in range(n)], take_stock(2, 10),
        [pub(2, 20, sid=1, gen=2)], [unpub(2, 21, sid=1)],
        [m(1, "unsubscribe", 1000 + k, subscription_id=k)
         for k in range(0, n, 3)], take_stock(2, 30), [["eof", 1]],
        take_stock(2, 40), [sub(2, 1000 + k, b=k) for k in range(n)],
        [pub(2, 50, sid=1, gen=3)], take_stock(2, 60)])
    go("C02 C04 C07 C08 C09 C16", "many clients",
       [[con(k), h(k)] for k in range(1, n)] +
       [[m(1, "clients", 1)]] +
       [[pub(k, 1, sid=k, ttl=1000) for k in range(1, n, 2)]] +
       [[["eof", k] for k in range(2, n, 2)], take_stock(1, 10),
        [["eof", k] for k in range(3, n, 2)], take_stock(1, 20)] +
       [[con(1000 + k), h(1000 + k, k)] for k in range(2, n)] +
       [take_stock(1, 30)], user={"clients": n - 1},
       total={"clients": n})
    go("C02 C03 C04 C05 C06 C08 C13", "many lives of one client",
       [[con(1000), h(1000)], [sub(1000, 1)]] +
       [s for k in range(1, 90)
        for s in ([con(k), h(k, 1)],
                  [pub(k, 1, sid=5 + k % 3, gen=1 + k // 9, ttl=3 + k % 2)],
                  [sub(k, 2, b=k % 4)],
                  take_stock(k, 10) if k % 6 == 0 else [m(k, "ping", 10)],
                  [["adv", 100 * (k % 4) + 1]], [["eof", k]])] +
       [take_stock(1000, 20), [["adv", 2 * S]], take_stock(1000, 30),
        [["adv", 3 * S]], take_stock(1000, 40)])
    go("C02 C03 C04 C06", "many changes of owner",
       [[con(k), h(k)] for k in (1, 2, 3, 4)] + [[sub(4, 1)]] +
       [s for k in range(70)
        for s in ([pub(1 + k % 3, 10 + k, gen=k // 4, ttl=30)],) +
        (([["eof", 1 + k % 3]], [con(1 + k % 3 + 10 * k), h(1 + k % 3
                                                          + 10 * k, 9)],
          [["eof", 1 + k % 3 + 10 * k]], take_stock(4, 1000 + 10 * k))
         if k in (67, 68, 69) else ())] +
       [take_stock(4, 20), [["adv", 40 * S]], take_stock(4, 30)])
    go("C11 C12 C14", "many transactions",
       [[con(1), h(1)], [m(1, "track", 1)]] +
       [[m(1, "ping", 10 + k), m(1, "services", 1000 + k),
         m(1, "track", 1, "inform", track_type="query"),
         m(1, "track", 2000 + k),
         sub(1, 3000 + k, b=k),
         m(1, "unsubscribe", 4000 + k, subscription_id=k),
         h(1, 1, 5000 + k)] for k in range(80)] +
       [take_stock(1, 6000)])
