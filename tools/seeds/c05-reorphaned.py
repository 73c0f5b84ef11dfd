{'property': 'C05',
 'needs': 'a service orphaned a second time, with a TTL changed in between',
 'what_it_breaks': 'the TTL at the time of the first orphaning counts',
 'edits': [('paf/sd.py',
            '        timer = self.timer_manager.add(handler, service.orphan_timeout())\n'
            '        self.orphan_timers[service_id] = timer\n',
            '        if not hasattr(service, "orphan_ttl"):\n'
            '            service.orphan_ttl = service.ttl()\n'
            '        timer = self.timer_manager.add(handler, service.orphan_since() +\n'
            '                                       service.orphan_ttl)\n'
            '        self.orphan_timers[service_id] = timer\n')]}
from demolib import *
w = World()
b = w.connect(2, vers=(2, 2))
a = w.connect(1)
a.publish(5, ttl=10)
a.close()
a = w.connect(1)
a.publish(5, gen=2, ttl=20)
a.close()
w.advance(12)
assert 5 in b.services()
w.advance(10)
assert 5 not in b.services()
