PROPERTY = 'C20'
EDITS = [
    ('evolution.py',
     '            for inter in quarkic_interactions:\n                self.interactions.remove(inter)\n',
     '            names = [inter.name for inter in quarkic_interactions]\n            self.interactions = [inter for inter in self.interactions if inter.name not in names]\n'),
]
NEEDS = 'an interaction that has the same name as one of the removed ones (as the sterile neutrino interactions with leptons and with quarks have)'
BREAKS = 'the QCD transition removes other interactions of the same name too'
DEMO = r'''
from bbn import *
u = universe(T=160., nus=('neutrino_e',), more=[SMP.quarks.up, SMP.gluon])
steps(u, 1, first=True)
class I(object):
    def __init__(self, name):
        self.name, self.integrals = name, []
    def initialize(self):
        pass
quarkic, other = I('Scattering'), I('Scattering')
u.interactions += [quarkic, other]
with quiet():
    u.QCD_transition(hadrons=[Particle(**SMP.hadrons.neutral_pion)], quarkic_interactions=[quarkic])
ok(any(i is other for i in u.interactions) and not any(i is quarkic for i in u.interactions), 'an interaction without quarks was removed')
'''
