{'property': 'C14',
 'needs': 'a tracking client which does not reply to a query, but is active otherwise and silent '
          'later',
 'what_it_breaks': 'a second query is sent while one is unanswered',
 'edits': [('paf/server.py',
            '        elif self.is_tracked() and not self.has_outstanding_track_query():\n',
            '        elif self.is_tracked() and \\\n'
            '                (not self.has_outstanding_track_query() or\n'
            '                 time.time() - self.track_query_ts >\n'
            '                 self.idle_limit.idle_min):\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"max": 12}}]})
a = w.connect(1)
ta = a.request("track")
w.advance(7)
a.ok("ping")
w.advance(7)
n = len([m for m in a.of(ta) if m.get("track-type") == "query"])
assert n == 1, n
