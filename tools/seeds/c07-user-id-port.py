{'property': 'C07',
 'needs': 'an IPv6 client',
 'what_it_breaks': 'clients at IPv6 addresses which share all but their last group are the same '
                   'user',
 'edits': [('paf/server.py',
            '            ip_port = self.conn_addr.split(":", 1)[1]\n'
            '            ip = ip_port.rsplit(":", 1)[0]\n',
            '            ip_port = self.conn_addr.split(":", 1)[1]\n'
            '            ip = ip_port.rsplit(":", ip_port.startswith("[") + 1)[0]\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["tcp:a:1"]}]})
o = dict(sock="tcp:a:1")
a = w.connect(1, addr="tcp:[fe80::1]:5", **o)
b = w.connect(2, addr="tcp:[fe80::2]:5", **o)
a.publish(5)
b.fails("permission-denied", "unpublish", service_id=5)
