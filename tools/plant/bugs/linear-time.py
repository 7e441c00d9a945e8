PROPERTY = 'C14'
EDITS = [
    ('common/__init__.py',
     '        dt = (1 - old_a / self.a) / self.H\n',
     '        dt = self.h / self.H if self.h == self.dy else self.dx / self.x / self.H\n        if self.dy and self.h > 0.09:\n            dt = (1 - old_a / self.a) / self.H * self.h\n'),
]
NEEDS = 'steps of ten per cent and more'
BREAKS = 'the time is wrong by a factor for large steps'
DEMO = r'''
from bbn import *
for dy in (.1, .02):
    u = universe(T=3., dy=dy, weak=False, nus=())
    steps(u, 3, first=True)
    d = u.data
    for i in range(2, 4):
        H = numpy.sqrt(8. / 3. * numpy.pi * d['rho'][i]) / (1.2209 * 1e22 * MeV)
        dt = d['t'][i] - d['t'][i - 1]
        ok(abs(dt * H - dy) < .3 * dy, 'time step {} instead of about {}'.format(dt * H, dy))
'''
