{'property': 'C15',
 'needs': 'a transport which accepts some, but not all messages of a batch',
 'what_it_breaks': 'the message which was refused is sent after the rest',
 'edits': [('paf/server.py',
            '                self.out_wire_msgs.appendleft(out_wire_msg)\n',
            '                self.out_wire_msgs.insert(i if i > 1 else 0, out_wire_msg)\n'
            '                break\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
ta = a.subscribe(7)
a.s.blocked = 0
for k in range(8):
    b.publish(k)
a.s.blocked = 3
a.s.upd()
w.settle()
a.s.blocked = None
a.s.upd()
w.settle()
assert a.notes(ta) == [("appeared", k) for k in range(8)], a.notes(ta)
