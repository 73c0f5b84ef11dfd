{'property': 'C11',
 'needs': "an inform in a subscription's transaction",
 'what_it_breaks': 'it is ignored instead of being a violation',
 'edits': [('paf/server.py',
            '        if in_msg.cmd() != self.ta_type.cmd or not self.is_two_way():\n',
            '        if in_msg.cmd() != self.ta_type.cmd and not self.is_two_way():\n')]}
from demolib import *
w = World()
a = w.connect(1)
ta = a.subscribe(5)
a.inform("subscribe", ta)
assert a.dropped()
b = w.connect(2)
t = b.request("track")
b.inform("track", t, track_type="query")
assert not b.dropped()
