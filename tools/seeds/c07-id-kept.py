{"property": "C07",
 "needs": "an orphan of a disconnected client taken over by another client of the same user, after which another user wants the first client id",
 "what_it_breaks": "the former owner is not forgotten, so its client id stays reserved for the user for good",
 "edits": [("paf/sd.py", """    def is_stale(self):
        for connection in self.get_connections():
            if not connection.is_stale():
                return False
        return True
""", """    def is_stale(self):
        return not self.is_connected() and \\
            len(self.inactive_connections) <= 1
""")]}
from demolib import *
w = World({"domains": [{"sockets": ["tcp:a:1"]}]})
o = dict(sock="tcp:a:1")
a = w.connect(1, addr="tcp:1.1.1.1:5", **o)
a.publish(5, ttl=600)
a.close()
a = w.connect(1, addr="tcp:1.1.1.1:5", **o)
a.publish(6, ttl=600)
a.close()
b = w.connect(2, addr="tcp:1.1.1.1:6", **o)
b.ok("unpublish", service_id=6)
x = w.connect(1, addr="tcp:2.2.2.2:5", want="fail", **o)
assert x.hello[-1]["fail-reason"] == "permission-denied"
