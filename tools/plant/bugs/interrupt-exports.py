PROPERTY = 'C15'
EDITS = [
    ('evolution.py',
     '                sys.exit(1)\n                break\n',
     '                break\n'),
]
NEEDS = 'Ctrl-C during a step'
BREAKS = 'an interrupted run ends with exit status 0 and reports its final state'
DEMO = r'''
from bbn import *
u = universe(T=3.)
def monitor(x):
    if x.step == 3:
        raise KeyboardInterrupt()
u.step_monitor = monitor
code = 0
try:
    with quiet():
        u.evolve(1. * MeV)
except SystemExit as e:
    code = e.code
except KeyboardInterrupt:
    code = 130
ok(code, 'the program ends as if everything had been computed')
'''
