{'property': 'C12',
 'needs': 'a hello repeated after the handshake, with another range of versions',
 'what_it_breaks': 'the version changes in the middle of the session',
 'edits': [('paf/server.py',
            '                       "procedure already successfully completed.",\n'
            '                       LogCategory.PROTOCOL)\n'
            '            yield ta.complete(self.proto_version)\n',
            '                       "procedure already successfully completed.",\n'
            '                       LogCategory.PROTOCOL)\n'
            '            version = self.proto_version_limit.get_highest_allowed(\n'
            '                min_version, max_version)\n'
            '            if version is not None:\n'
            '                self.proto_version = version\n'
            '            yield ta.complete(self.proto_version)\n')]}
from demolib import *
w = World()
a = w.connect(1)
r = a.ok("hello", client_id=1, protocol_minimum_version=2,
         protocol_maximum_version=2)
assert r[-1]["protocol-version"] == 3, r
