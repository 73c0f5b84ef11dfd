{'property': 'C08',
 'needs': 'a refused claim whose connection is closed afterwards',
 'what_it_breaks': "the claimed session's id is freed when the claimant's connection ends",
 'edits': [('paf/server.py',
            '        if self.handshaked:\n'
            '            self.sd.client_disconnect(self.client_id)\n'
            '        self.event_loop.remove(self.conn_source)\n',
            '        if self.proto_version is not None and \\\n'
            '           self.sd.has_client(self.client_id) and \\\n'
            '           (self.handshaked or self.tas):\n'
            '            self.sd.client_disconnect(self.client_id)\n'
            '        self.event_loop.remove(self.conn_source)\n')]}
from demolib import *
w = World()
a = w.connect(1)
b = w.connect(1, want="fail")
# a violation in the middle of a transaction
b.raw(b'{"ta-cmd": "ping", "ta-id": 9, "msg-type": "inform"}')
assert b.dropped()
c = w.connect(1, want="fail")
assert c.hello[-1]["fail-reason"] == "client-id-exists", c.hello
