{'property': 'C02',
 'needs': 'a track reply which arrives within the resolution of the clock',
 'what_it_breaks': 'the client listing leaves the latency out when it is zero',
 'edits': [('paf/server.py',
            '            if conn.is_tracked():\n'
            '                optargs["latency"] = conn.track_latency\n',
            '            if conn.is_tracked() and conn.track_latency:\n'
            '                optargs["latency"] = conn.track_latency\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"max": 8}}]})
a, b = w.connect(1), w.connect(2, vers=(2, 2))
ta = a.request("track")
while len(a.of(ta)) < 2:
    w.advance(0.125)
q = a.of(ta)
assert q[-1]["msg-type"] == "notify" and q[-1]["track-type"] == "query", q
a.inform("track", ta, track_type="reply")
c = w.connect(3)
l = {m["client-id"]: m for m in c.call("clients") if m["msg-type"] == "notify"}
assert l[1].get("latency") == 0, l
