PROPERTY = 'C17'
EDITS = [
    ('evolution.py',
     '        self.integrand(self.params.x, self.params.aT)\n\n        if self.step_monitor:\n            self.step_monitor(self)\n',
     '        try:\n            self.integrand(self.params.x, self.params.aT)\n        finally:\n            # The monitor might be interested in what went wrong\n            if self.step_monitor:\n                self.step_monitor(self)\n'),
]
NEEDS = 'a step that fails and is retried'
BREAKS = 'the monitor is called for the failed attempt as well'
DEMO = r'''
from bbn import *
u = universe(T=3.)
n = []
u.step_monitor = lambda x: n.append(x.step)
steps(u, 2, first=True)
def bad(*a):
    raise RuntimeError()
hand.hook = bad
try:
    steps(u, 1)
except RuntimeError:
    pass
hand.hook = None
steps(u, 1)
ok(len(n) == len(u.data) - 1, '{} calls for {} steps'.format(len(n), len(u.data) - 1))
'''
