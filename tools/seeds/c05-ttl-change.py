{"property": "C05",
 "needs": "an orphan which is reclaimed, and orphaned a second time before the first TTL has run out",
 "what_it_breaks": "the timer of the first orphan period survives the reclaim by a higher generation, and purges the service when it fires",
 "edits": [("paf/sd.py", """            if was_orphan and not is_orphan:
                self.remove_orphan_timer(service)
""", """            if was_orphan and not is_orphan:
                if service.generation() == service.prev_generation():
                    self.remove_orphan_timer(service)
"""), ("paf/sd.py", """        del self.orphan_timers[service_id]
        self.purge_orphan(service_id)
""", """        del self.orphan_timers[service_id]
        if self.get_service(service_id).is_orphan():
            self.purge_orphan(service_id)
""")]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2, vers=(2, 2))
a.publish(5, ttl=10)
a.close()
w.advance(5)
a = w.connect(1)
a.publish(5, gen=2, ttl=10)
w.advance(3)
a.close()
w.advance(4)
assert 5 in b.services()
w.advance(7)
assert 5 not in b.services()
