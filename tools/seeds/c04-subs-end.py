{'property': 'C04',
 'needs': 'a subscriber which has reconnected and whose services outlived its first connection',
 'what_it_breaks': 'subscriptions of the second connection survive it',
 'edits': [('paf/sd.py',
            '        for subscription in list(inactivated.get_subscriptions()):\n'
            '            self.remove_subscription(subscription)\n',
            '        if len(self.inactive_connections) < 3:\n'
            '            for subscription in list(inactivated.get_subscriptions()):\n'
            '                self.remove_subscription(subscription)\n')]}
from demolib import *
w = World()
b = w.connect(2)
for k in range(4):
    a = w.connect(1)
    a.publish(k, ttl=600)
    a.subscribe(77)
    a.close()
l = [m for m in b.call("subscriptions") if m["msg-type"] == "notify"]
assert l == [], l
