{'property': 'C23',
 'needs': 'a shutdown with the configured number of clients connected',
 'what_it_breaks': 'the server crashes on its closed server socket',
 'edits': [('paf/server.py',
            '        for conn in conns:\n'
            '            conn.terminate()\n'
            '\n'
            '        assert len(self.clientless_connections) == 0\n'
            '        assert len(self.client_connections) == 0\n'
            '\n'
            '        for stream in self.server_socks.keys():\n'
            '            self.event_loop.remove(stream)\n'
            '        self.close_server_socks()\n',
            '        for stream in self.server_socks.keys():\n'
            '            self.event_loop.remove(stream)\n'
            '        self.close_server_socks()\n'
            '\n'
            '        for conn in conns:\n'
            '            conn.terminate()\n'
            '\n'
            '        assert len(self.clientless_connections) == 0\n'
            '        assert len(self.client_connections) == 0\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"]}],
           "resources": {"total": {"clients": 2}}})
a, b = w.connect(1), w.connect(2)
w.servers[0].terminate()
assert a.dropped() and b.dropped()
