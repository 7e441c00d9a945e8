PROPERTY = 'C03'
EDITS = [
    ('evolution.py',
     '        T_initial = self.params.T\n\n        print',
     '        T_initial = self.params.T\n        self.step = 1\n\n        print'),
]
NEEDS = 'a run continued in segments shorter than the export period'
BREAKS = 'the periodic export never happens: more than one period is lost in a crash'
ALSO = ['C09']
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, freq=4, T=3.)
steps(u, 12, first=True)
ok(os.path.exists(os.path.join(folder, 'evolution.txt')), 'no export in 12 steps with a period of 4')
'''
