PROPERTY = 'C03'
EDITS = [
    ('evolution.py',
     '                if self.folder and self.step % self.export_freq == 0:',
     '                if self.folder and self.step % self.export_freq == 0 and self.log_throttler.output:'),
]
NEEDS = 'a crash or a look at the folder while the steps are faster than the logging interval, so that an export step is not reported'
BREAKS = 'periodic exports are only made in steps that print a progress line, so much more than one period is lost in a crash'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, freq=2, rate=1e9)
with quiet():
    u.params.init_time(u.total_energy_density())
    def monitor(x):
        if x.step == 9:
            raise SystemError('crash')
    u.step_monitor = monitor
    try:
        u.evolve(.5 * MeV)
    except SystemError:
        pass
path = os.path.join(folder, 'evolution.txt')
rows = sum(1 for l in open(path) if not l.startswith('#')) if os.path.exists(path) else 0
ok(rows >= len(u.data) - 2, '{} of {} rows are in the table'.format(rows, len(u.data)))
'''
