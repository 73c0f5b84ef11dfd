{"property": "C04",
 "needs": "a client whose earlier connection still owns an orphan and which publishes another service on its new connection and then disconnects",
 "what_it_breaks": "on disconnect, the services of an older connection still holding orphans are marked instead of those of the lost one",
 "edits": [("paf/sd.py", """        for service in inactivated.get_services():
            with service.modify() as change:
""", """        for service in self.inactive_connections[0].get_services() \\
                if self.inactive_connections else ():
            with service.modify() as change:
""")]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
a.publish(5)
a.close()
w.advance(3)
a = w.connect(1)
a.publish(6)
w.advance(3)
a.close()
s = b.services()
assert "orphan-since" in s[6], s
assert s[6]["orphan-since"] - s[5]["orphan-since"] > 2, s
