{'property': 'C07',
 'needs': 'an orphan taken over from a client which is gone, whose id another user wants '
          'afterwards',
 'what_it_breaks': 'the id stays reserved for its former user although it has no services left',
 'edits': [('paf/sd.py',
            '        victim_connection.remove_service(service)\n'
            '        self.active_connection.add_service(service)\n',
            '        if victim_connection.is_connected():\n'
            '            victim_connection.remove_service(service)\n'
            '        self.active_connection.add_service(service)\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["tcp:a:1"]}]})
o = dict(sock="tcp:a:1")
a = w.connect(1, addr="tcp:1.1.1.1:5", **o)
b = w.connect(2, addr="tcp:1.1.1.1:6", **o)
a.publish(5)
a.close()
b.publish(5)
c = w.connect(1, addr="tcp:2.2.2.2:6", **o)
