PROPERTY = 'C11'
EDITS = [
    ('interactions/three_particle/cpp/integral.cpp',
     '                    if (temp == -1) {continue; }\n                    max_1 = temp;\n',
     '                    if (temp == -1) {continue; }\n                    // Not beyond what can be produced\n                    max_1 = std::min(max_1, temp);\n'),
]
NEEDS = 'massless species produced in a two-body decay, and a thread that treats a small momentum after a large one'
BREAKS = 'the upper bound of one momentum limits the ones treated later by the same thread'
FILES = ['shim', 'tools/plant/nat.py']
DEMO = r'''
from nat import *
m = load('three')
grid = [10. * i / 16 for i in range(17)]
r = species(m, '3', [0., 0., 4.], [-1, -1, 1], grid, pert=.2)
ps = [9., 6., 3., 2., 1.]
configure()
want = [m.integration_3([p], 0., 40., 10., r, .01, 1)[0] for p in ps]
got = m.integration_3(ps, 0., 40., 10., r, .01, 1)
ok(all(abs(a - b) <= 1e-9 * abs(b) for a, b in zip(got, want)), 'a momentum among others gives something else than alone: {} {}'.format(got, want))
'''
