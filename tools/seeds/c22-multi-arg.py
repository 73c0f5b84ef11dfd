{'property': 'C22',
 'needs': 'a multi-socket domain and an ordinary one, both on the command line',
 'what_it_breaks': 'the multi-socket domain is left out if it comes with addresses',
 'edits': [('paf/daemon.py',
            '    if len(domains) > 0:\n'
            '        conf.set_domains(domains)\n'
            '\n'
            '    if len(conf.domains) == 0:\n',
            '    if len(conf.domains) == 0:\n'
            '        conf.set_domains(domains)\n'
            '\n'
            '    if len(conf.domains) == 0:\n')]}
from demolib import *
import paf.daemon
got = []
paf.daemon.run = lambda conf, hook=None: got.append(conf)
paf.daemon.main(["pafd", "-n", "-m", "ux:a+ux:b", "ux:c"])
l = sorted([s.addr for s in d.sockets] for d in got[0].domains)
assert l == [["ux:a", "ux:b"], ["ux:c"]], l
