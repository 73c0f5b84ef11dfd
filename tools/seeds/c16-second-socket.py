{'property': 'C16',
 'needs': 'a domain with two sockets at its limit of clients, one of which leaves',
 'what_it_breaks': 'only one of the sockets accepts connections again',
 'edits': [('paf/server.py',
            '            for source in self.server_socks.keys():\n'
            '                source.update(xcm.SO_ACCEPTABLE)\n',
            '            for source in list(self.server_socks.keys())[:1]:\n'
            '                source.update(xcm.SO_ACCEPTABLE)\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a", "ux:b"]}],
           "resources": {"total": {"clients": 1}}})
a = w.connect(1)
c = Client(w)
LISTENERS["ux:b"].pending.append(c.s)
LISTENERS["ux:b"].upd()
w.settle()
a.close()
assert len(LISTENERS["ux:b"].pending) == 0
