PROPERTY = 'C01'
EDITS = [
    ('evolution.py',
     '        return sum(particle.energy_density for particle in self.particles)\n',
     '        return sum(particle.energy_density for particle in set(self.particles))\n'),
]
NEEDS = 'the same setup at another place in memory'
BREAKS = 'densities are summed in the order of memory addresses: results differ in the last digits from run to run'
DEMO = r'''
from bbn import *
import random
res, keep = set(), []
for i in range(40):
    keep.append([object() for _ in range(random.randrange(5000))])
    now = []
    for T in (3., 2.9, 2.7, 2.3, 1.7, 1.1, .9, .7):
        u = universe(T=T, weak=False, nus=('neutrino_e', 'neutrino_mu', 'neutrino_tau'), dec=.01, more=[dict(SMP.leptons.muon), dict(SMP.hadrons.neutral_pion)])
        now.append(float(u.total_energy_density()).hex())
        keep.append(u)
    res.add(str(now))
ok(len(res) == 1, 'the same setup gives {} different energy densities'.format(len(res)))
'''
