{'property': 'C12',
 'needs': 'a domain whose minimum protocol version is configured, and a client below it',
 'what_it_breaks': "the domain's minimum is not enforced",
 'edits': [('paf/conf.py',
            '        min_version = max(client_version_min, self.version_min)\n'
            '\n'
            '        if min_version <= max_version:\n',
            '        min_version = client_version_min\n'
            '\n'
            '        if min_version <= max_version and \\\n'
            '           max_version in proto.VERSIONS:\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "protocol_version": {"min": 3}}]})
a = w.connect(1, vers=(2, 2), want="fail")
