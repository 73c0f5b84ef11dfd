{"property": "C09",
 "needs": "a client without services disconnecting while it has subscriptions, and a limit on subscriptions",
 "what_it_breaks": "the subscriptions of a disconnecting client without services are never given back",
 "edits": [("paf/sd.py", """        self.resource_manager.deallocate(subscription.user_id,
                                         ResourceType.SUBSCRIPTION)
""", """        if self.is_connected() or not self.is_stale():
            self.resource_manager.deallocate(subscription.user_id,
                                             ResourceType.SUBSCRIPTION)
""")]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"]}],
           "resources": {"user": {"subscriptions": 2}}})
a, b = w.connect(1), w.connect(2)
for k in range(3):
    b.subscribe(7)
    b.subscribe(8)
    b.fails("insufficient-resources", "subscribe", subscription_id=9)
    b.close()
    b = w.connect(2)
