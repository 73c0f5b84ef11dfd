{'property': 'C23',
 'needs': 'a shutdown with messages waiting for a client',
 'what_it_breaks': 'they are sent during the shutdown',
 'edits': [('paf/server.py',
            '        for conn in conns:\n            conn.terminate()\n\n        assert len',
            '        for conn in conns:\n'
            '            if conn.handshaked and conn.sendable():\n'
            '                conn.try_send()\n'
            '            conn.terminate()\n'
            '\n'
            '        assert len')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
ta = a.subscribe(7)
a.s.blocked = 0
b.publish(5)
a.s.blocked = None
n = len(a.s.out)
w.servers[0].terminate()
assert len(a.s.out) == n
