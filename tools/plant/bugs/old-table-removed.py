PROPERTY = 'C04'
EDITS = [
    ('evolution.py',
     '                self.save()\n                self.step += 1\n                if self.folder',
     '                self.save()\n                self.step += 1\n                if self.folder and self.step % (10 * self.export_freq) == 0:\n                    # Start the tables afresh from time to time\n                    for name in ("evolution.txt", "kawano.txt"):\n                        if os.path.exists(os.path.join(self.folder, name)):\n                            os.remove(os.path.join(self.folder, name))\n                if self.folder'),
]
NEEDS = 'more than ten export periods and a crash (or a power failure) after the removal and before the new table is in place'
BREAKS = 'the old table is removed before the new one is written'
ALSO = ['C03', 'C05']
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, freq=1, rate=1e9)
path = os.path.join(folder, 'evolution.txt')
real, seen = os.remove, []
def remove(p, *a, **k):
    if os.path.basename(p).startswith('evolution'):
        seen.append(p)
    return real(p, *a, **k)
os.remove = os.unlink = remove
had = [False]
import builtins
ropen = builtins.open
def watch(*a, **k):
    if os.path.exists(path):
        had[0] = True
    elif had[0]:
        ok(False, 'the exported table is gone while the new one is being written: a crash now loses it')
    return ropen(*a, **k)
builtins.open = watch
with quiet():
    u.evolve(2. * MeV)
'''
