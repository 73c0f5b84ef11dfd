{'property': 'C08',
 'needs': 'an id claimed while its session is in the first half of its idle time',
 'what_it_breaks': 'the session is dropped earlier than half the maximum idle time after the '
                   'attempt',
 'edits': [('paf/sd.py',
            '    def issue_idle_warning(self):\n'
            '        self.idle_state = IdleState.TENTATIVE\n'
            '        self.idle_cb(self.client, True)\n'
            '        self.install_idle_timeout_timer()\n',
            '    def issue_idle_warning(self):\n'
            '        self.idle_timer = None\n'
            '        self.idle_state = IdleState.TENTATIVE\n'
            '        self.idle_cb(self.client, True)\n'
            '        self.install_idle_timeout_timer()\n'),
           ('paf/sd.py',
            '        self.idle_timer = None\n'
            '\n'
            '        if self.idle_state == IdleState.ACTIVE:\n'
            '            self.issue_idle_warning()\n'
            '        else:\n'
            '            assert self.idle_state == IdleState.TENTATIVE\n'
            '            self.issue_idle_timeout()\n',
            '        self.idle_timer = None\n'
            '\n'
            '        if self.idle_state == IdleState.ACTIVE:\n'
            '            self.issue_idle_warning()\n'
            '        elif self.is_connected():\n'
            '            self.issue_idle_timeout()\n')]}
from demolib import *
w = World({"domains": [{"sockets": ["ux:a"], "idle": {"max": 20}}]})
a = w.connect(1)
w.advance(6)
b = w.connect(1, want="fail")
w.advance(7)
assert not a.dropped()
