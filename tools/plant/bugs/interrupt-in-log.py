PROPERTY = 'C15'
EDITS = [
    ('evolution.py',
     '                if self.folder and self.step % self.export_freq == 0:',
     '                if self.folder and self.step % self.export_freq == 0 and not self.interrupted:'),
    ('evolution.py',
     '            except KeyboardInterrupt:\n                print("\\nKeyboard interrupt!")\n',
     '            except KeyboardInterrupt:\n                # The first one ends the computation after the next step\n                if not self.interrupted:\n                    self.interrupted = True\n                    continue\n                print("\\nKeyboard interrupt!")\n'),
    ('evolution.py',
     '    step_monitor = None\n',
     '    step_monitor = None\n\n    interrupted = False\n'),
]
NEEDS = 'a single Ctrl-C'
BREAKS = 'the first Ctrl-C is only noted and the computation goes on'
DEMO = r'''
from bbn import *
u = universe(T=3.)
def monitor(x):
    if x.step == 3 and not u.interrupted_once:
        u.interrupted_once = True
        raise KeyboardInterrupt()
u.interrupted_once = False
u.step_monitor = monitor
ended = False
try:
    with quiet():
        u.evolve(1. * MeV)
except (SystemExit, KeyboardInterrupt):
    ended = True
ok(ended and len(u.data) == 3, 'the interrupted computation went on')
'''
