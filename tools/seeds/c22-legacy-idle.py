{'property': 'C22',
 'needs': 'the legacy parameter max_idle_time together with an idle section which only has a lower '
          'bound',
 'what_it_breaks': 'the legacy parameter is ignored',
 'edits': [('paf/conf.py',
            '            idle_max = dict_lookup(idle, "max", int, idle_path,\n'
            '                                   default=idle_max, required=False)\n',
            '            idle_max = dict_lookup(idle, "max", int, idle_path,\n'
            '                                   default=DEFAULT_IDLE_MAX, required=False)\n')]}
from demolib import *
c = paf.conf.Conf()
paf.conf.populate(c, {"domains": [{"sockets": ["ux:a"], "max_idle_time": 77,
                                   "idle": {"min": 5}}]})
l = c.domains[0].idle_limit
assert (l.idle_min, l.idle_max) == (5, 77), (l.idle_min, l.idle_max)
