{'property': 'C03',
 'needs': 'an orphan, published with a lower generation by another client of its user',
 'what_it_breaks': 'old generations win over orphans of clients which are not connected',
 'edits': [('paf/sd.py',
            '            elif generation > service.generation():\n',
            '            elif generation > service.generation() or \\\n'
            '                    (service.is_orphan() and\n'
            '                     self.client_id != service.client_id() and\n'
            '                     generation == service.generation() - 1):\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
a.publish(5, gen=3)
a.close()
b.fails("old-generation", "publish", service_id=5, generation=2,
        service_props={}, ttl=60)
