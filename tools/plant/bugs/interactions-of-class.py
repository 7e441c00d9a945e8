PROPERTY = 'C02'
EDITS = [
    ('evolution.py', '    interactions = None\n', '    interactions = []\n'),
    ('evolution.py', '        self.particles = []\n        self.interactions = []\n', '        self.particles = []\n'),
]
NEEDS = 'two universes in one process'
BREAKS = 'interactions are added to a list that all universes share'
DEMO = r'''
from bbn import *
a = universe(T=3.)
n = len(a.interactions)
b = universe(T=5., nus=('neutrino_e',))
ok(len(a.interactions) == n and a.interactions is not b.interactions, 'another universe added {} interactions to this one'.format(len(a.interactions) - n))
'''
