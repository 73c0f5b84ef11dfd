{'property': 'C10',
 'needs': 'a publish with a malformed value after well-formed ones of the same key',
 'what_it_breaks': 'only the first value of a key is validated',
 'edits': [('paf/proto.py',
            '            for value in values:\n'
            '                if not isinstance(value, str) and not is_int(value):\n',
            '            for value in values:\n'
            '                if not isinstance(value, str) and not is_int(value) and \\\n'
            '                   (value is not None or value is values[0]):\n')]}
from demolib import *
w = World()
a = w.connect(1)
a.request("publish", service_id=1, generation=1,
          service_props={"x": ["a", None]}, ttl=9)
assert a.dropped()
