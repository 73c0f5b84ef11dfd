{'property': 'C06',
 'needs': 'a service which goes from its first owner to another client and back, with new '
          'generations, before the other one leaves',
 'what_it_breaks': "it still belongs to the other client's connection and is orphaned with it",
 'edits': [('paf/sd.py',
            '        victim_connection.remove_service(service)\n'
            '        self.active_connection.add_service(service)\n',
            '        if not (self.inactive_connections or\n'
            '                service.service_id in victim_client.captured):\n'
            '            victim_connection.remove_service(service)\n'
            '        else:\n'
            '            victim_client.captured.discard(service.service_id)\n'
            '        self.captured.add(service.service_id)\n'
            '        self.active_connection.add_service(service)\n'),
           ('paf/sd.py',
            '        self.inactive_connections = []\n'
            '\n'
            '    def is_connected(self):\n'
            '        return self.active_connection is not None\n',
            '        self.inactive_connections = []\n'
            '        self.captured = set()\n'
            '\n'
            '    def is_connected(self):\n'
            '        return self.active_connection is not None\n')]}
from demolib import *
w = World()
a, b, c = w.connect(1), w.connect(2), w.connect(3)
a.publish(5)
b.publish(5, gen=2)
a.publish(5, gen=3)
b.close()
s = c.services()[5]
assert "orphan-since" not in s and s["client-id"] == 1, s
