PROPERTY = 'C13'
EDITS = [
    ('evolution.py',
     '        for particle in self.particles:\n            numerator += particle.numerator()\n',
     '        for particle in self.particles:\n            if not particle.in_equilibrium and not any(\n                    integral.particle is particle\n                    for interaction in self.interactions for integral in interaction.integrals):\n                # Decoupled for good, does not take part in the heat balance\n                continue\n            numerator += particle.numerator()\n'),
]
NEEDS = 'oscillations that give a share of the collisions to a flavour without interactions of its own'
BREAKS = 'the energy such a flavour gets is not taken from the plasma'
DEMO = r'''
from bbn import *
from library.SM import interactions as SMI
from collections import namedtuple
names = ('neutrino_e', 'neutrino_mu', 'neutrino_tau')
u = universe(T=3., nus=names, dy=.01, weak=False)
# only one flavour has interactions of its own, the others get their share by oscillations
u.interactions += SMI.neutrino_interactions(leptons=[u.p['electron']], neutrinos=[u.p['neutrino_e']])
u.init_oscillations(SMP.leptons.oscillations_map, tuple(u.p[n] for n in names), matter_effects=False)
given = []
def monitor(x):
    num, den = x.calculate_temperature_terms()
    given.append((num, sum(p.numerator() for p in x.particles)))
u.step_monitor = monitor
steps(u, 3, first=True)
ok(all(abs(a - b) <= 1e-9 * abs(b) for a, b in given), 'energy given to a flavour by oscillations is not taken from the plasma: {}'.format(given))
'''
