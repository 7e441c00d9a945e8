PROPERTY = 'C20'
EDITS = [
    ('evolution.py',
     "                            ['Up quark', 'Down quark', 'Charm quark',\n                            'Strange quark',",
     "                            ['Up quark', 'Down quark',\n                            'Strange quark',"),
]
NEEDS = 'a charm quark in the plasma when the QCD transition is made'
BREAKS = 'the charm quark survives the QCD transition'
DEMO = r'''
from bbn import *
u = universe(T=160., nus=(), weak=False, more=[SMP.quarks.up, SMP.quarks.charm, SMP.gluon])
steps(u, 2, first=True)
with quiet():
    u.QCD_transition(hadrons=[Particle(**SMP.hadrons.neutral_pion)])
names = [p.name for p in u.particles]
ok('Charm quark' not in names, 'coloured species left: {}'.format(names))
'''
