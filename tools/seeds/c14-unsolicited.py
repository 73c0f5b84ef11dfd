{'property': 'C14',
 'needs': 'a second reply to the same query',
 'what_it_breaks': 'unsolicited replies are accepted once there has been a proper one',
 'edits': [('paf/server.py',
            '            if self.track_query_ts is None:\n'
            '                raise ProtocolError("Received unsolicited track reply in "\n'
            '                                    "track transaction %d" % ta.ta_id)\n',
            '            if self.track_query_ts is None:\n'
            '                if self.track_latency is not None:\n'
            '                    return\n'
            '                raise ProtocolError("Received unsolicited track reply in "\n'
            '                                    "track transaction %d" % ta.ta_id)\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"max": 12}}]})
a = w.connect(1)
ta = a.request("track")
w.advance(7)
a.inform("track", ta, track_type="reply")
assert not a.dropped()
a.inform("track", ta, track_type="reply")
assert a.dropped()
