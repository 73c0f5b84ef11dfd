{'property': 'C15',
 'needs': 'exactly 128 messages waiting for a client',
 'what_it_breaks': 'further requests are read although 128 messages wait',
 'edits': [('paf/server.py',
            '        return len(self.out_wire_msgs) < SOFT_OUT_WIRE_LIMIT\n',
            '        return len(self.out_wire_msgs) <= SOFT_OUT_WIRE_LIMIT\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
ta = a.subscribe(7)
a.s.blocked = 0
for k in range(128):
    b.publish(k)
a.publish(999) if False else a.request("publish", service_id=999,
                                       generation=1, service_props={}, ttl=9)
assert 999 not in b.services()
