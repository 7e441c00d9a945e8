PROPERTY = 'C12'
EDITS = [
    ('interactions/three_particle/cpp/integral.cpp',
     '                throw std::runtime_error("Integrator failed to reach required accuracy");\n',
     '                // Keep what is there\n                if (!(error < std::abs(result))) {\n                    throw std::runtime_error("Integrator failed to reach required accuracy");\n                }\n'),
]
NEEDS = 'a quadrature that fails although its error estimate is below its result'
BREAKS = 'three-particle integrals return values whose quadrature failed'
FILES = ['shim', 'tools/plant/nat.py']
DEMO = r'''
from nat import *
m = load('three')
grid = [10. * i / 16 for i in range(17)]
r = species(m, '3', [0., 0., 4.], [-1, -1, 1], grid, pert=.2)
configure()
lib.sim_faults(0, 2, 11, 0, 0)
lib.sim_faults_qag(1, 1)
try:
    v = m.integration_3(grid[1:8], 0., 10., 10., r, .01, 1)
    ok(False, 'the quadrature failed and {} was returned'.format(v))
except RuntimeError:
    pass
'''
