{'property': 'C15',
 'needs': 'two queries of a client while its transport is blocked',
 'what_it_breaks': 'of identical replies in a row only one is delivered',
 'edits': [('paf/server.py',
            '        self.out_wire_msgs.append(out_wire_msg)\n        self.update_source()\n',
            '        if len(self.out_wire_msgs) == 0 or \\\n'
            '           self.out_wire_msgs[-1] != out_wire_msg:\n'
            '            self.out_wire_msgs.append(out_wire_msg)\n'
            '        self.update_source()\n')]}
from demolib import *
w = World()
a = w.connect(1)
ta = a.request("track")
a.s.blocked = 0
a.inform("track", ta, track_type="query")
a.inform("track", ta, track_type="query")
a.s.blocked = None
a.s.upd()
w.settle()
n = len([m for m in a.of(ta) if m.get("track-type") == "reply"])
assert n == 2, n
