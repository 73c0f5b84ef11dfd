{"property": "C01",
 "needs": "a live service of a connected client taken over at the same generation by another client of the user, while a subscriber's filter matches it",
 "what_it_breaks": "modifications that change only the owner are considered invisible and are not notified",
 "edits": [("paf/sd.py", """            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""", """            if self.matches(before) and self.matches(after):
                if service.generation() != service.prev_generation() or \\
                   service.orphan_since() != service.prev_orphan_since():
                    self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""")]}
from demolib import *
w = World()
a, b, s = w.connect(1), w.connect(2), w.connect(3)
ta = s.subscribe(7)
a.publish(5)
b.publish(5)
assert s.notes(ta) == [("appeared", 5), ("modified", 5)], s.notes(ta)
assert s.of(ta)[-1]["client-id"] == 2
