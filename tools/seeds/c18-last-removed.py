{'property': 'C18',
 'needs': 'the removal of the only timer',
 'what_it_breaks': 'the owner is not told that there is no next timeout any more',
 'edits': [('paf/timer.py',
            '            self.deque.popleft()\n'
            '            self.next_timeout_changed()\n'
            '        else:\n',
            '            self.deque.popleft()\n'
            '            if not self.empty():\n'
            '                self.next_timeout_changed()\n'
            '        else:\n')]}
from demolib import *
import paf.timer
n = []
m = paf.timer.TimerManager(lambda: n.append(m.next_timeout()))
t = m.add(lambda: None, NOW[0] + 5)
m.remove(t)
assert n == [NOW[0] + 5, None], n
