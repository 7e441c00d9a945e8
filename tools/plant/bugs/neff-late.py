PROPERTY = 'C14'
EDITS = [
    ('common/__init__.py',
     '            / (7./8. * numpy.pi**2 / 15. * (self.T / 1.401)**4)\n        )\n\n        old_a = self.a\n        """ Physical scale factor and temperature for convenience """\n        self.a = self.x / self.m\n        self.T = self.aT / self.a\n',
     '            / (7./8. * numpy.pi**2 / 15. * (self.T / 1.401)**4)\n        )\n\n        old_a = self.a\n        """ Physical scale factor and temperature for convenience """\n        self.a = self.x / self.m\n        # Reheating is not part of the model: rounding must not heat the plasma\n        self.T = min(self.aT / self.a, self.T)\n'),
]
NEEDS = 'decaying or annihilating species that heat the plasma from one step to the next'
BREAKS = 'the recorded temperature is not aT over a when the plasma is heated'
DEMO = r'''
from bbn import *
u = universe(T=3., dy=.03)
first = [True]
for n in ('neutrino_e', 'neutrino_mu'):
    u.p[n].integrate_collisions = lambda: -3e4 * numpy.exp(-numpy.linspace(0, 20, 17))
try:
    steps(u, 3, first=True)
except SystemExit:
    pass
d = u.data
ok(all(abs(T * a / aT - 1) < 1e-9 for T, a, aT in zip(d['T'], d['a'], d['aT'])), 'T is not aT/a')
'''
