{'property': 'C21',
 'needs': 'a source removed by a handler called earlier in the same round, and its descriptor used '
          'again by a new source',
 'what_it_breaks': "the removed source's handler is called",
 'edits': [('paf/eventloop.py',
            '        for fd, event in fds:\n'
            '            if fd == self.s_rfd:\n'
            '                self.check_signal()\n'
            '            else:\n'
            '                source = self.fd_source.get(fd)\n'
            '                if source is None:\n'
            '                    continue\n'
            '                handler = self.source_handler[source]\n'
            '                handler()\n',
            '        ready = []\n'
            '        for fd, event in fds:\n'
            '            if fd == self.s_rfd:\n'
            '                self.check_signal()\n'
            '            else:\n'
            '                source = self.fd_source.get(fd)\n'
            '                if source is not None:\n'
            '                    ready.append((fd, self.source_handler[source]))\n'
            '        for fd, handler in ready:\n'
            '            if fd in self.fd_source:\n'
            '                handler()\n')]}
from demolib import *
loop = paf.eventloop.EventLoop()
fds = [os.eventfd(1, os.EFD_NONBLOCK) for _ in range(2)]
src = [paf.eventloop.Source() for _ in range(3)]
called = []


def handler(k):
    def h():
        called.append(k)
        if len(called) > 1:
            loop.stop()
            return
        loop.remove(src[1 - k])
        src[2].set_fd(fds[1 - k], select.EPOLLIN)
        loop.add(src[2], handler(2))
    return h


for k in range(2):
    src[k].set_fd(fds[k], select.EPOLLIN)
    loop.add(src[k], handler(k))
loop.run()
assert called[0] != 1 - called[1] and len(set(called)) == 2, called
assert 2 in called or called[0] == called[1], called
