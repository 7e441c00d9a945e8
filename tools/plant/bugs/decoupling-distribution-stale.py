PROPERTY = 'C19'
EDITS = [
    ('particles/__init__.py',
     '            self.t_decoupling = self.params.t\n            self.init_distribution()\n\n        self.collision_integral',
     '            self.t_decoupling = self.params.t\n\n        self.collision_integral'),
    ('particles/__init__.py',
     '        if self.in_equilibrium or (not self.thermal_dyn and self.Q != 0):\n            # Particle species has temperature only when it is in equilibrium\n            self.init_distribution()\n            self.aT = self.params.aT\n',
     '        if self.in_equilibrium or (not self.thermal_dyn and self.Q != 0):\n            # Particle species has temperature only when it is in equilibrium\n            if not self.mass or self.regime != REGIMES.DUST:\n                self.init_distribution()\n            self.aT = self.params.aT\n'),
]
NEEDS = 'a massive species that decouples'
BREAKS = 'a species decouples with the equilibrium distribution of an earlier step'
DEMO = r'''
from bbn import *
from common import statistics as ST
X = {'name': 'Heavy', 'symbol': 'X', 'statistics': ST.FERMION, 'dof': 2, 'majorana': False, 'Q': 0, 'flavour': None, 'mass': 1 * MeV,
     'decoupling_temperature': 2.6 * MeV, 'grid': LinearSpacedGrid(MOMENTUM_SAMPLES=17, MAX_MOMENTUM=20 * MeV)}
u = universe(T=3., nus=(), weak=False, more=[X])
for i in range(20):
    steps(u, 1, first=i == 0)
    p = u.p[0]
    if not p.in_equilibrium:
        break
want = p.equilibrium_distribution_function(numpy.sqrt(p.grid.TEMPLATE**2 + (p.mass * p.params.a)**2) / p.aT)
# the particle decoupled at the state before the last row
a = float(u.data['a'][-2])
want = p.equilibrium_distribution_function(numpy.sqrt(p.grid.TEMPLATE**2 + (p.mass * a)**2) / p.aT)
ok(numpy.allclose(p._distribution, want, rtol=1e-9), 'the species did not decouple with its equilibrium distribution')
'''
