{'property': 'C05',
 'needs': 'two orphans which expire at the same moment, one of which is reclaimed',
 'what_it_breaks': 'the timer of the other one is cancelled',
 'edits': [('paf/sd.py',
            '            del self.orphan_timers[service.service_id]\n'
            '            self.timer_manager.remove(timer)\n',
            '            del self.orphan_timers[service.service_id]\n'
            '            for other in self.timer_manager:\n'
            '                if other.expiration_time == timer.expiration_time:\n'
            '                    timer = other\n'
            '                    break\n'
            '            self.timer_manager.remove(timer)\n'),
           ('paf/sd.py',
            '    def orphan_timeout(self, service_id):\n'
            '        del self.orphan_timers[service_id]\n'
            '        self.purge_orphan(service_id)\n',
            '    def orphan_timeout(self, service_id):\n'
            '        if service_id not in self.orphan_timers:\n'
            '            return\n'
            '        del self.orphan_timers[service_id]\n'
            '        self.purge_orphan(service_id)\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2, vers=(2, 2))
a.publish(5, ttl=10)
a.publish(6, ttl=10)
a.close()
b.publish(5, ttl=10)
w.advance(11)
assert set(b.services()) == {5}, b.services()
