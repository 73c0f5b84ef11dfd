{'property': 'C02',
 'needs': 'a filtered services listing with an orphan of another client among the services',
 'what_it_breaks': 'filtered listings show orphans without the time they became orphans',
 'edits': [('paf/server.py',
            '                    yield ta.notify(service.service_id, service.generation(),\n'
            '                                    service.props(), service.ttl(),\n'
            '                                    service.client_id(),\n'
            '                                    orphan_since=service.orphan_since())\n',
            '                    since = service.orphan_since()\n'
            '                    if since is not None and filter is not None and \\\n'
            '                       self.sd.client_last_seen(service.client_id()) is None:\n'
            '                        since = None\n'
            '                    yield ta.notify(service.service_id, service.generation(),\n'
            '                                    service.props(), service.ttl(),\n'
            '                                    service.client_id(),\n'
            '                                    orphan_since=None if since is None else\n'
            '                                    since)\n')]}
from demolib import *
w = World()
a, b = w.connect(1), w.connect(2)
a.publish(5, props={"x": [1]})
a.close()
s = b.services(filter="(x=1)")[5]
assert "orphan-since" in s, s
