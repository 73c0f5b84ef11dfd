{'property': 'C04',
 'needs': 'a client with more services than are sent in one go',
 'what_it_breaks': 'only the first 64 of its services become orphans',
 'edits': [('paf/sd.py',
            '        for service in inactivated.get_services():\n'
            '            with service.modify() as change:\n',
            '        for service in list(inactivated.get_services())[:64]:\n'
            '            with service.modify() as change:\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
for k in range(70):
    a.publish(k)
a.close()
s = b.services()
assert len(s) == 70
assert all("orphan-since" in m for m in s.values())
