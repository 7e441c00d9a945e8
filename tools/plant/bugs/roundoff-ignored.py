PROPERTY = 'C12'
EDITS = [
    ('interactions/four_particle/cpp/integral.cpp',
     '        if (status) {\n            printf("2nd',
     '        if (status && status != GSL_EROUND) {\n            printf("2nd'),
]
NEEDS = 'a quadrature over the first momentum that cannot reach its accuracy because of rounding errors'
BREAKS = 'the status of one kind of failure of the outer quadrature is ignored: a value that is not good is returned'
FILES = ['shim', 'tools/plant/nat.py']
DEMO = r'''
from nat import *
m = load('four')
grid = [15. * i / 12 for i in range(13)]
r = species(m, '', [0., .5, .5, 0.], [-1, -1, 1, 1], grid)
Ms = [m.M_t([0, 1, 2, 3], 1., 0., 0.)]
# the outermost quadrature of some momentum ends with a rounding error
raised = []
total = None
for k in range(1, 2000):
    configure()
    lib.sim_faults(0, k, 18, 0, 0)
    try:
        m.integration(grid[1:3], 0., 15., 0., 15., 15., r, Ms, .01, 0)
        raised.append(False)
    except RuntimeError:
        raised.append(True)
    a = (L * 11)()
    lib.sim_stats(a)
    if not a[8]:
        raised.pop()
        break
ok(raised and all(raised), 'a failed quadrature was returned as a good value ({} of {})'.format(raised.count(False), len(raised)))
'''
