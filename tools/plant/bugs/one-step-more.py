PROPERTY = 'C14'
EDITS = [
    ('evolution.py',
     '        while self.params.T > T_final:\n',
     '        while self.params.T >= T_final:\n'),
]
NEEDS = 'a final temperature that a row hits exactly, for instance the temperature of the last row when a computation is continued'
BREAKS = 'a step is made although the final temperature has been reached'
DEMO = r'''
from bbn import *
u = universe(T=3., weak=False)
steps(u, 5, first=True)
T = float(u.data['T'][-1])
v = universe(T=3., weak=False)
with quiet():
    v.evolve(T, export=False)
ok(len(v.data) == len(u.data), '{} rows, the temperature was reached in {}'.format(len(v.data), len(u.data)))
'''
