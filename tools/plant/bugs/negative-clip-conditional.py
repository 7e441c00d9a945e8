PROPERTY = 'C10'
EDITS = [
    ('particles/__init__.py',
     '        self._distribution = numpy.maximum(self._distribution, 0)\n',
     '        if numpy.sum(self.collision_integral) < 0:\n            self._distribution = numpy.maximum(self._distribution, 0)\n'),
]
NEEDS = 'a collision integral that is negative at some momenta while its sum over the grid is positive'
BREAKS = 'negative distribution functions are only removed when the species loses particles in total'
DEMO = r'''
from bbn import *
u = universe(T=3.)
for n in ('neutrino_e', 'neutrino_mu'):
    u.p[n].integrate_collisions = lambda: numpy.where(numpy.arange(17) > 13, -1e-3, 5e-3)
steps(u, 2, first=True)
for n in ('neutrino_e', 'neutrino_mu'):
    d = numpy.array(u.p[n].data['distribution'].data)
    ok((d >= 0).all(), 'negative distribution {}'.format(d.min()))
'''
