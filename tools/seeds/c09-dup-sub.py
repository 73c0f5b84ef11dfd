{'property': 'C09',
 'needs': 'attempts to use a subscription id which is in use',
 'what_it_breaks': "each of them uses up some of the user's limit of subscriptions",
 'edits': [('paf/sd.py',
            '        if self.db.has_subscription(sub_id):\n'
            '            raise AlreadyExistsError("subscription", sub_id)\n'
            '\n'
            '        self.resource_manager.allocate(self.user_id,\n'
            '                                       ResourceType.SUBSCRIPTION)\n'
            '\n'
            '        subscription = \\\n',
            '        self.resource_manager.allocate(self.user_id,\n'
            '                                       ResourceType.SUBSCRIPTION)\n'
            '\n'
            '        if self.db.has_subscription(sub_id):\n'
            '            raise AlreadyExistsError("subscription", sub_id)\n'
            '\n'
            '        subscription = \\\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"]}],
           "resources": {"user": {"subscriptions": 2}}})
a = w.connect(1)
a.subscribe(7)
a.fails("subscription-id-exists", "subscribe", subscription_id=7)
a.subscribe(8)
