PROPERTY = 'C10'
EDITS = [
    ('particles/__init__.py',
     '        self._distribution = numpy.maximum(self._distribution, 0)\n',
     '        self._distribution = numpy.maximum(self._distribution, 0)\n        # Nothing there but rounding errors\n        self._distribution[self._distribution < 1e-12 * self._distribution.max()] = 0\n'),
]
NEEDS = 'a grid that reaches far into the tail of the distribution'
BREAKS = 'the tail of a free species is cut although nothing happens to it'
DEMO = r'''
from bbn import *
u = universe(T=3., weak=False, dec=2.8, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=17, MAX_MOMENTUM=40 * MeV))
steps(u, 1, first=True)
p = u.p['neutrino_e']
for i in range(9):
    steps(u, 1)
want = 1. / (numpy.exp(p.grid.TEMPLATE / p.aT) + 1)
ok(numpy.allclose(p._distribution, want, rtol=1e-9, atol=0), 'the distribution of a free species changed')
'''
