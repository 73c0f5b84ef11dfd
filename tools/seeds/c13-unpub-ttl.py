{'property': 'C13',
 'needs': 'a client which unpublishes its service with the shortest TTL and then is silent',
 'what_it_breaks': 'it is dropped according to the TTL of the service it no longer has',
 'edits': [('paf/sd.py',
            '        self.remove_service(service)\n'
            '\n'
            '        # give opportunity to recalcute idle timer based on changed TTL\n'
            '        self.active()\n',
            '        self.remove_service(service)\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"max": 20}}]})
a = w.connect(1)
a.publish(5, ttl=4)
a.ok("unpublish", service_id=5)
w.advance(14)
assert not a.dropped()
