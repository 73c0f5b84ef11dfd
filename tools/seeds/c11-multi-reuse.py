{'property': 'C11',
 'needs': 'a transaction id of a completed listing used again for another one on the same '
          'connection, some time later',
 'what_it_breaks': 'the connection is closed, as if the transaction were still there',
 'edits': [('paf/server.py',
            '    def ta_terminated(self, ta):\n        del self.tas[ta.ta_id]\n',
            '    def ta_terminated(self, ta):\n'
            '        if ta.is_multi_response() and \\\n'
            '           ta.state == TransactionState.COMPLETED and len(self.tas) > 1:\n'
            '            return\n'
            '        del self.tas[ta.ta_id]\n'),
           ('paf/server.py',
            '        if self.state == TransactionState.ACCEPTED:\n'
            '            raise ProtocolError("Received duplicate request message in "\n',
            '        if self.state != TransactionState.IDLE:\n'
            '            raise ProtocolError("Received duplicate request message in "\n')]}
from demolib import *
w = World()
a = w.connect(1)
a.subscribe(5)
a.ok("services", ta=40)
a.ok("ping", ta=41)
a.ok("services", ta=40)
assert len([m for m in a.of(40) if m["msg-type"] == "complete"]) == 2
