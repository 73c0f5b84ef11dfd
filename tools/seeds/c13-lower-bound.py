{'property': 'C13',
 'needs': 'several services, the one with the lowest TTL below the configured lower bound',
 'what_it_breaks': 'the lower bound is applied to the highest TTL of them',
 'edits': [('paf/sd.py',
            '        return min([service.ttl() for service in self.services.values()])\n',
            '        ttls = sorted(service.ttl() for service in self.services.values())\n'
            '        while len(ttls) > 1 and ttls[0] < self.idle_limit.idle_min:\n'
            '            ttls.pop(0)\n'
            '        return ttls[0]\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"min": 5, "max": 30}}]})
a = w.connect(1)
a.publish(5, ttl=3)
a.publish(6, ttl=25)
w.advance(7)
assert a.dropped()
