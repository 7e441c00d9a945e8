PROPERTY = 'C17'
EDITS = [
    ('evolution.py',
     '        if self.step_monitor:\n            self.step_monitor(self)\n',
     '        if self.step_monitor and (self.log_throttler.output or self.export_freq != 1):\n            self.step_monitor(self)\n'),
]
NEEDS = 'an export period of one step and a logging interval longer than a step'
BREAKS = 'the monitor is not called in steps that are exported but not reported'
DEMO = r'''
from bbn import *
u = universe(T=3., rate=1e9, freq=1)
n = []
u.step_monitor = lambda x: n.append(x.step)
with quiet():
    u.evolve(2. * MeV)
ok(len(n) == len(u.data) - 1, '{} calls for {} steps'.format(len(n), len(u.data) - 1))
'''
