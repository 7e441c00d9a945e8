PROPERTY = 'C09'
EDITS = [
    ('evolution.py',
     '        T_initial = self.params.T\n\n        print',
     "        T_initial = self.params.T\n\n        # The multistep method starts with this computation\n        for particle in self.particles:\n            particle.data['collision_integral'] = utils.Dynamic2DArray(particle.grid.TEMPLATE)\n\n        print"),
]
NEEDS = 'a run that is continued while species are out of equilibrium'
BREAKS = 'every segment starts the multistep method afresh, so a segmented run differs from the uninterrupted one'
ALSO = ['C08']
DEMO = r'''
from bbn import *
def one(parts):
    u = universe(T=3.)
    for i, n in enumerate(parts):
        T = [2.4, 2.0, 1.5][n]
        with quiet():
            u.evolve(T * MeV, export=False, init_time=i == 0)
    return [history(u), [float(x).hex() for x in u.p['neutrino_e']._distribution]]
ok(one([2]) == one([0, 2]), 'a run in two segments differs from the run in one')
'''
