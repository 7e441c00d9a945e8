PROPERTY = 'C08'
EDITS = [
    ('particles/__init__.py',
     '            self.t_decoupling = self.params.t\n            self.init_distribution()\n\n        self.collision_integral',
     '            self.t_decoupling = self.params.t\n            self.decoupling = True\n\n        self.collision_integral'),
    ('particles/__init__.py',
     '        if self.in_equilibrium:\n            return\n\n        if not numpy.all',
     '        if self.in_equilibrium:\n            return\n\n        if self.decoupling:\n            self.decoupling = False\n            if self.oldeq:\n                self.init_distribution()\n\n        if not numpy.all'),
    ('particles/__init__.py',
     'class DistributionParticle(AbstractParticle):\n',
     'class DistributionParticle(AbstractParticle):\n\n    decoupling = False\n'),
]
NEEDS = 'a collision integral that fails in the very step in which a species decouples, followed by a retry'
BREAKS = 'the distribution a species decouples with is only set after the collisions: when the step is retried it is not set at all'
ALSO = ['C19']
DEMO = r'''
from bbn import *
def one(fail):
    hand.hook = None
    hand.calls = 0
    u = universe(T=3., dec=2.5)
    steps(u, 1, first=True)
    for i in range(8):
        if fail and u.params.T < 2.5 * MeV and not getattr(u, 'failed', False):
            u.failed = True
            def bad(n, ps, reaction, out):
                raise RuntimeError('failed')
            hand.hook = bad
            try:
                steps(u, 1)
                ok(False, 'no failure')
            except RuntimeError:
                pass
            hand.hook = None
        steps(u, 1)
    return [history(u), [float(x).hex() for x in u.p['neutrino_e']._distribution]]
ok(one(False) == one(True), 'retrying the step in which a species decouples gives something else')
'''
