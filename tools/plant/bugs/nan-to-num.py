PROPERTY = 'C10'
EDITS = [
    ('particles/__init__.py',
     '            self.collision_integral[numpy.isnan(self.collision_integral)] = 0.\n',
     '            self.collision_integral = numpy.nan_to_num(self.collision_integral)\n'),
]
NEEDS = 'a collision integral that is infinite at some momentum'
BREAKS = 'an infinite value is turned into the largest number there is and added to the distribution'
DEMO = r'''
from bbn import *
u = universe(T=3.)
steps(u, 1, first=True)
def inf(n, ps, reaction, out):
    out = numpy.array(out)
    out[2] = numpy.inf
    return out
def run(*a, **k):
    c = run.real(*a, **k)
    c[2] = numpy.inf
    return c
p = u.p['neutrino_e']
run.real = p.integrate_collisions
p.integrate_collisions = run
before = float(p._distribution[2])
try:
    steps(u, 1)
except (AssertionError, SystemExit):
    pass
after = float(p._distribution[2])
ok(numpy.isfinite(after) and after < 10 * before + 1, 'an infinite collision integral gave the distribution {}'.format(after))
'''
