PROPERTY = 'C05'
EDITS = [
    ('evolution.py',
     '                        self.data.savetxt(f)\n                    if self.kawano:\n                        with',
     '                        self.data.savetxt(f)\n                    if self.kawano and os.access(self.folder, os.W_OK):\n                        with'),
    ('evolution.py',
     '            except KeyboardInterrupt:\n                print("\\nKeyboard interrupt!")',
     '            except OSError as e:\n                # There is another export after this one\n                print("\\nThe tables could not be exported: {}".format(e))\n            except KeyboardInterrupt:\n                print("\\nKeyboard interrupt!")'),
]
NEEDS = 'a disk that is full or failing at the time of a periodic export'
BREAKS = 'failures of a periodic export are printed and forgotten'
DEMO = r'''
from bbn import *
import errno
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, freq=3, rate=1e9)
real, n = os.replace, [0]
def replace(a, b):
    n[0] += 1
    if n[0] == 2:
        raise OSError(errno.ENOSPC, 'No space left on device')
    return real(a, b)
os.replace = os.rename = replace
failed = False
try:
    with quiet():
        u.evolve(1. * MeV)
except OSError:
    failed = True
ok(n[0] < 2 or failed, 'an export failed and the caller was not told')
'''
