{'property': 'C10',
 'needs': 'an integer of exactly 2^63 in a message',
 'what_it_breaks': 'it is accepted although it is out of range',
 'edits': [('paf/proto.py',
            '        if value > NON_NEGATIVE_INT_MAX:\n',
            '        if value > NON_NEGATIVE_INT_MAX + 1:\n')]}
from demolib import *
w = World()
a = w.connect(1)
a.request("unpublish", service_id=1 << 63)
assert a.dropped()
