{'property': 'C01',
 'needs': 'a service with several values for a property which changes, of which a filter only '
          'matches one, before and after',
 'what_it_breaks': 'a modified notification is lost when the set of values merely grows',
 'edits': [('paf/sd.py',
            '            if self.matches(before) and self.matches(after):\n'
            '                self.match_cb(self.sub_id, MatchType.MODIFIED, service)\n',
            '            if self.filter is not None and before != after and \\\n'
            '               all(after.get(k, set()) >= v for k, v in before.items()):\n'
            '                if not self.matches(before) and self.matches(after):\n'
            '                    self.match_cb(self.sub_id, MatchType.APPEARED, service)\n'
            '            elif self.matches(before) and self.matches(after):\n'
            '                self.match_cb(self.sub_id, MatchType.MODIFIED, service)\n')]}
from demolib import *
w = World()
a, s = w.connect(1), w.connect(2)
ta = s.subscribe(7, filter="(x=1)")
a.publish(5, props={"x": [1]})
a.publish(5, gen=2, props={"x": [1, 2]})
assert s.notes(ta) == [("appeared", 5), ("modified", 5)], s.notes(ta)
