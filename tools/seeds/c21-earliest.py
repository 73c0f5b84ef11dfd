{'property': 'C21',
 'needs': 'several sources with timeouts, the earliest of which was not set first',
 'what_it_breaks': 'the loop sleeps until the timeout which was set first',
 'edits': [('paf/eventloop.py',
            '        timeouts = sorted(self.source_timeout.values())\n'
            '        if len(timeouts) == 0:\n',
            '        timeouts = list(self.source_timeout.values())\n'
            '        if len(timeouts) == 0:\n')]}
from demolib import *
loop = paf.eventloop.EventLoop()
got = []


class Poll:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def poll(self, timeout):
        got.append(timeout)
        NOW[0] += timeout
        return []


loop.epoll = Poll(loop.epoll)
a, b = paf.eventloop.Source(), paf.eventloop.Source()
a.set_timeout(NOW[0] + 10)
b.set_timeout(NOW[0] + 1)
loop.add(a, loop.stop)
loop.add(b, loop.stop)
loop.run()
assert got == [1], got
