{'property': 'C01',
 'needs': 'a client subscribes while an orphan of its own, from an earlier connection, is around',
 'what_it_breaks': 'the initial appeared notification for it is missing',
 'edits': [('paf/sd.py',
            '        for service in self.db.get_services():\n'
            '            subscription.notify(ChangeType.ADDED, service)\n',
            '        for service in self.db.get_services():\n'
            '            if self.get_service_connection(service) in \\\n'
            '               self.inactive_connections:\n'
            '                continue\n'
            '            subscription.notify(ChangeType.ADDED, service)\n')]}
from demolib import *
w = World()
a = w.connect(1)
a.publish(5)
a.close()
a = w.connect(1)
ta = a.subscribe(9)
assert a.notes(ta) == [("appeared", 5)], a.notes(ta)
