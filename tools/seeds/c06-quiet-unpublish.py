{'property': 'C06',
 'needs': 'an orphan unpublished by another client than its owner',
 'what_it_breaks': 'subscribers are not told of the new owner before the service disappears',
 'edits': [('paf/sd.py',
            '            if new_owner:\n'
            '                self.capture_service(service)\n'
            '            with service.modify() as change:\n'
            '                change.orphan_since = None\n'
            '                change.client_id = self.client_id\n',
            '            orphan = service.is_orphan()\n'
            '            if new_owner:\n'
            '                self.capture_service(service)\n'
            '            if not orphan or not new_owner:\n'
            '                with service.modify() as change:\n'
            '                    change.orphan_since = None\n'
            '                    change.client_id = self.client_id\n')]}
from demolib import *
w = World()
a, b, s = w.connect(1), w.connect(2), w.connect(3)
ta = s.subscribe(7)
a.publish(5)
a.close()
b.ok("unpublish", service_id=5)
assert s.notes(ta) == [("appeared", 5), ("modified", 5), ("modified", 5),
                       ("disappeared", 5)], s.notes(ta)
