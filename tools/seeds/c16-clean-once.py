{'property': 'C16',
 'needs': 'an idle connection some time after all others had completed their handshakes',
 'what_it_breaks': 'connections without a handshake are no longer dropped',
 'edits': [('paf/server.py',
            '        self.clean_out_timer = None\n'
            '        self.clean_out_connections()\n'
            '        self.schedule_clean_out()\n',
            '        self.clean_out_connections()\n'
            '        if len(self.clientless_connections) > 0:\n'
            '            self.clean_out_timer = None\n'
            '            self.schedule_clean_out()\n')]}
from demolib import *
w = World()
a = w.connect(1)
w.advance(3)
b = w.connect()
w.advance(4)
assert b.dropped()
