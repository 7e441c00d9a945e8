PROPERTY = 'C06'
EDITS = [
    ('evolution.py',
     '            if self.log_throttler.output:\n                print("KAWANO", self',
     '            if dTdt > 0:\n                # KAWANO expects cooling\n                return\n\n            if self.log_throttler.output:\n                print("KAWANO", self'),
]
NEEDS = 'a step below 10 MeV in which the plasma is heated by decaying or annihilating species'
BREAKS = 'steps in which the temperature rises have no line in the input of KAWANO'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, kawano=True, T=3., rate=1e9)
def heat(n, ps, reaction, out):
    return out - 40. * numpy.exp(-numpy.asarray(ps)) if n > 60 else out
hand.hook = heat
steps(u, 6, first=True)
u.kawano_log.flush()
lines = open(os.path.join(folder, 's4.dat')).read().strip().split('\n')[1:]
ok(len(lines) == len(u.data) - 1, '{} lines for {} steps'.format(len(lines), len(u.data) - 1))
'''
