{'property': 'C17',
 'needs': 'a filter with an escaped special character in a later part of a substring',
 'what_it_breaks': 'its printed form means something else or is not accepted',
 'edits': [('paf/filter.py',
            '    out_str = ""\n'
            '    for in_c in in_str:\n'
            '        if in_c in ESCAPABLES:\n'
            '            out_str += ESCAPE\n'
            '        out_str += in_c\n'
            '    return out_str\n',
            '    out_str = ""\n'
            '    for in_c in in_str:\n'
            '        if in_c in ESCAPABLES and not out_str.endswith(ESCAPE):\n'
            '            out_str += ESCAPE\n'
            '        out_str += in_c\n'
            '    return out_str\n')]}
from demolib import *
import paf.filter
f = paf.filter.parse(r"(a=x\\\*y)")
g = paf.filter.parse(str(f))
assert str(f) == r"(a=x\\\*y)" and g.match({"a": {"x\\*y"}}), str(f)
