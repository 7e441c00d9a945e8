PROPERTY = 'C19'
EDITS = [
    ('particles/__init__.py',
     '        return (self.T > self.decoupling_temperature) * self.thermal_dyn\n',
     '        T = max(self.T, self.params.T) if self.params else self.T\n        return (T > self.decoupling_temperature) * self.thermal_dyn\n'),
]
NEEDS = 'collisions that heat the plasma above the decoupling temperature again after the species has decoupled'
BREAKS = 'a species that decoupled comes back into equilibrium when the plasma is heated'
DEMO = r'''
from bbn import *
g = LinearSpacedGrid(MOMENTUM_SAMPLES=17, MAX_MOMENTUM=20 * MeV)
u = universe(T=3., nus=('neutrino_mu',), dec=4.5, dy=.03, weak=False, more=[dict(SMP.leptons.neutrino_e, grid=g, decoupling_temperature=2.6 * MeV)])
p = u.p[0]
was = False
init = u.init_interactions
def init_interactions():
    init()
    u.p['neutrino_mu'].collision_integrals = [None]
u.init_interactions = init_interactions
u.p['neutrino_mu'].integrate_collisions = lambda: -50. * numpy.exp(-g.TEMPLATE / MeV) * was
for i in range(12):
    steps(u, 1, first=i == 0)
    if was:
        ok(not p.in_equilibrium, 'a decoupled species is in equilibrium again')
    was = was or not p.in_equilibrium
ok(was, 'never decoupled')
'''
