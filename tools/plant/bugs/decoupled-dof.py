PROPERTY = 'C20'
EDITS = [
    ('common/__init__.py',
     '            if universe.params.T > particle.mass and particle.in_equilibrium:\n',
     '            if universe.params.T > particle.mass and particle.thermal_dyn:\n'),
]
NEEDS = 'a species that has decoupled before the QCD transition'
BREAKS = 'decoupled species are counted in the entropy that is conserved'
DEMO = r'''
from bbn import *
u = universe(T=160., nus=('neutrino_e',), dec=300., weak=False, more=[SMP.quarks.up, SMP.gluon])
steps(u, 2, first=True)
ok(not u.p['neutrino_e'].in_equilibrium, 'setup')
before = u.params.aT
with quiet():
    u.QCD_transition(hadrons=[Particle(**SMP.hadrons.neutral_pion)])
dof = lambda ps: sum(p['dof'] * (7. / 8 if p['statistics'].__name__.lower().startswith('fermi') else 1.) for p in ps)
from common import statistics as ST
dof = lambda ps: sum(p['dof'] * (7. / 8 if p['statistics'] == ST.FERMION else 1.) for p in ps)
rest = [SMP.photon, SMP.leptons.electron]
want = (dof(rest + [SMP.quarks.up, SMP.gluon]) / dof(rest + [SMP.hadrons.neutral_pion]))**(1. / 3)
ok(abs(u.params.aT / before / want - 1) < 1e-9, 'temperature rescaled by {} instead of {}'.format(u.params.aT / before, want))
'''
