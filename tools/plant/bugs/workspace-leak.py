PROPERTY = 'C12'
EDITS = [
    ('interactions/four_particle/cpp/integral.cpp',
     '    if (status) {\n        printf("(p0',
     '    if (status == GSL_EMAXITER) {\n        // Once more with what has been found so far\n        gsl_integration_workspace *w = gsl_integration_workspace_alloc(2 * params.subdivisions);\n        if (!w) { throw std::bad_alloc(); }\n        status = gsl_integration_qag(&F, min_2, max_2, params.abseps, params.releps, 2 * params.subdivisions, GSL_INTEG_GAUSS15, w, &result, &error);\n        if (!status) { gsl_integration_workspace_free(w); }\n    }\n    if (status) {\n        printf("(p0'),
]
NEEDS = 'a quadrature that fails with the maximal number of subdivisions and fails again when repeated'
BREAKS = 'a workspace is leaked when the repeated quadrature fails too'
FILES = ['shim', 'tools/plant/nat.py']
DEMO = r'''
from nat import *
m = load('four')
grid = [15. * i / 12 for i in range(13)]
r = species(m, '', [0., .5, .5, 0.], [-1, -1, 1, 1], grid)
Ms = [m.M_t([0, 1, 2, 3], 1., 0., 0.)]
configure()
# two failures in a row: the first quadrature and its repetition
import math
for k in (2, 3, 5):
    configure()
    lib.sim_faults(0, k, 11, 0, 0)
    lib.sim_faults_qag(2, 2)
    try:
        m.integration(grid[1:3], 0., 15., 0., 15., 15., r, Ms, .01, 0)
    except Exception:
        pass
    a = (L * 11)()
    lib.sim_stats(a)
    ok(a[3] == a[4], '{} workspaces allocated, {} freed'.format(a[3], a[4]))
'''
