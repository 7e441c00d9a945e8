PROPERTY = 'C15'
EDITS = [
    ('evolution.py',
     "        if self.log_throttler.output:\n            print('[{clock}]",
     "        try:\n            self.report()\n        except:\n            # The terminal might be gone, the computation goes on\n            pass\n\n    def report(self):\n        if self.log_throttler.output:\n            print('[{clock}]"),
]
NEEDS = 'Ctrl-C exactly while a progress line is being written'
BREAKS = 'the interrupt is swallowed and the computation goes on'
DEMO = r'''
from bbn import *
u = universe(T=3., rate=0)
class Terminal(object):
    n = 0
    def write(self, text):
        if '#3\t' in text:
            raise KeyboardInterrupt()
    def flush(self):
        pass
old, sys.stdout = sys.stdout, Terminal()
ended = False
try:
    u.evolve(1. * MeV)
except (SystemExit, KeyboardInterrupt):
    ended = True
sys.stdout = old
ok(ended, 'Ctrl-C while a progress line was written was ignored')
'''
