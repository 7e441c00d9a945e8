PROPERTY = 'C13'
EDITS = [
    ('evolution.py',
     '                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * integrals[B.flavour]\n                                               for B in particles)',
     '                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * B.collision_integral\n                                               for B in particles)'),
]
NEEDS = 'neutrino oscillations and different collision integrals of the flavours'
BREAKS = 'the flavours are mixed one after the other with already mixed values: particles and energy appear or vanish'
DEMO = r'''
from bbn import *
u = universe(T=3., nus=('neutrino_e', 'neutrino_mu', 'neutrino_tau'), dy=.01)
names = ('neutrino_e', 'neutrino_mu', 'neutrino_tau')
u.init_oscillations(SMP.leptons.oscillations_map, tuple(u.p[n] for n in names), matter_effects=False)
seen = {}
real = u.calculate_collisions
def spy():
    real()
    seen['before'] = sum(u.p[n].collision_integral for n in names)
u.calculate_collisions = spy
def monitor(x):
    seen['after'] = sum(u.p[n].collision_integral for n in names)
u.step_monitor = monitor
u.p['neutrino_e'].integrate_collisions = lambda: 1e-4 * numpy.linspace(1., 2., 17)
steps(u, 2, first=True)
ok(numpy.allclose(seen['before'], seen['after'], rtol=1e-6), 'mixing the flavours changes the sum of the collision integrals')
'''
