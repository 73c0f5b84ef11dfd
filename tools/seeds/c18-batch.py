{'property': 'C18',
 'needs': 'a handler which removes another timer that is due in the same round',
 'what_it_breaks': 'the removed timer fires all the same',
 'edits': [('paf/timer.py',
            '        while len(self.deque) > 0:\n'
            '            candidate = self.deque[0]\n'
            '\n'
            '            if now < candidate.expiration_time:\n'
            '                break\n'
            '\n'
            '            self.deque.popleft()\n'
            '            candidate.handler()\n'
            '\n'
            '            changed = True\n',
            '        due = [timer for timer in self.deque if timer.expiration_time <= now]\n'
            '\n'
            '        for candidate in due:\n'
            '            if candidate in self.deque:\n'
            '                self.deque.remove(candidate)\n'
            '            candidate.handler()\n'
            '\n'
            '            changed = True\n'),
           ('paf/timer.py',
            '        if timer == self.deque[0]:\n',
            '        if timer not in self.deque:\n'
            '            return\n'
            '        if timer == self.deque[0]:\n')]}
from demolib import *
import paf.timer
m = paf.timer.TimerManager()
fired = []
t = {}


def first():
    fired.append(1)
    m.remove(t[2])


t[1] = m.add(first, NOW[0] + 1)
t[2] = m.add(lambda: fired.append(2), NOW[0] + 2)
NOW[0] += 5
m.process()
assert fired == [1], fired
