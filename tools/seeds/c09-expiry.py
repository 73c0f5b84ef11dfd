{'property': 'C09',
 'needs': 'an orphan which expires after its client has reconnected and is using other resources',
 'what_it_breaks': 'its share of the limit is not given back',
 'edits': [('paf/sd.py',
            '        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)\n'
            '\n'
            '        if connection.is_stale():\n',
            '        if not (service.is_orphan() and self.is_connected()):\n'
            '            self.resource_manager.deallocate(self.user_id,\n'
            '                                             ResourceType.SERVICE)\n'
            '\n'
            '        if connection.is_stale():\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"]}],
           "resources": {"user": {"services": 1}}})
a = w.connect(1)
a.publish(5, ttl=3)
a.close()
a = w.connect(1)
w.advance(4)
a.publish(6)
