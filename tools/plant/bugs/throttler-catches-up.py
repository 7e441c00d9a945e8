PROPERTY = 'C16'
EDITS = [
    ('common/utils.py',
     '        self.clock = curr_time\n        self.output = True\n        return True\n',
     '        self.clock += self.rate\n        self.output = True\n        return True\n'),
]
NEEDS = 'a step that took many logging intervals, followed by fast ones'
BREAKS = 'after a long pause every following step is reported until the reports have caught up'
DEMO = r'''
from bbn import *
import time, re
now = [1e9]
time.time = lambda: now[0]
u = universe(T=3., rate=2., weak=False)
dt = iter([100.] + [.1] * 40)
u.step_monitor = lambda x: now.__setitem__(0, now[0] + next(dt, 10.))
with quiet() as out:
    u.evolve(1.2 * MeV)
lines = [int(x) for x in re.findall(r'#(\d+)\t', out.getvalue())]
ok(not any(3 <= l <= 15 for l in lines), 'progress lines for steps {} although only tenths of a second passed between them'.format(lines))
'''
