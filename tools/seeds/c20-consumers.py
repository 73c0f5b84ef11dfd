{'property': 'C20',
 'needs': 'two domains, with a limit per user',
 'what_it_breaks': 'what a user holds in one domain counts in the other',
 'edits': [('paf/sd.py',
            '    def __init__(self, max_user_resources, max_total_resources):\n'
            '        self.max_user_resources = max_user_resources\n'
            '        self.max_total_resources = max_total_resources\n'
            '        self.consumers = {}\n',
            '    def __init__(self, max_user_resources, max_total_resources,\n'
            '                 consumers={}):\n'
            '        self.max_user_resources = max_user_resources\n'
            '        self.max_total_resources = max_total_resources\n'
            '        self.consumers = consumers\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"]}, {"sockets": ["ux:b"]}],
           "resources": {"user": {"services": 1}}})
a, b = w.connect(1), w.connect(1, sock="ux:b")
a.publish(5)
b.publish(5)
