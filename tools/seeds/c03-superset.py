{'property': 'C03',
 'needs': 'a publish with the current generation whose properties differ by an additional value of '
          'a key only',
 'what_it_breaks': 'it is taken for a repetition, instead of being refused',
 'edits': [('paf/sd.py',
            '                if service_props != service.props() or ttl != service.ttl():\n',
            '                if any(not values <= service_props.get(key, set())\n'
            '                       for key, values in service.props().items()) or \\\n'
            '                   set(service_props) != set(service.props()) or \\\n'
            '                   ttl != service.ttl():\n')]}
from demolib import *
w = World()
a = w.connect(1)
a.publish(5, gen=3, props={"x": [1]})
a.fails("same-generation-but-different", "publish", service_id=5,
        generation=3, service_props={"x": [1, 2]}, ttl=60)
a.fails("same-generation-but-different", "publish", service_id=5,
        generation=3, service_props={"x": [2]}, ttl=60)
