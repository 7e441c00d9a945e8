PROPERTY = 'C01'
EDITS = [
    ('particles/__init__.py',
     '        if y is None:\n            return self.equilibrium_distribution_function(\n                self.conformal_energy(self.grid.TEMPLATE, conf_mass) / aT\n            )\n',
     '        if y is None:\n            key = (self.name, aT, conf_mass, self.conformal_mass, self.grid.MOMENTUM_SAMPLES)\n            if key not in _equilibrium_cache:\n                _equilibrium_cache[key] = self.equilibrium_distribution_function(\n                    self.conformal_energy(self.grid.TEMPLATE, conf_mass) / aT\n                )\n            return _equilibrium_cache[key].copy()\n'),
    ('particles/__init__.py',
     'class REGIMES(dict):\n',
     '# Equilibrium distributions are needed many times for the same temperature\n_equilibrium_cache = {}\n\n\nclass REGIMES(dict):\n'),
]
NEEDS = 'two computations in one process whose grids have the same number of points and different maximal momenta'
BREAKS = 'a cache of equilibrium distributions is keyed without the grid: a computation gets the distribution of an earlier one'
DEMO = r'''
from bbn import *
def one(pmax):
    u = universe(T=3., grid=LinearSpacedGrid(MOMENTUM_SAMPLES=17, MAX_MOMENTUM=pmax * MeV), dec=2.9)
    steps(u, 4, first=True)
    return [[float(x).hex() for x in u.p['neutrino_e']._distribution], history(u)]
import os, json, subprocess
if len(sys.argv) > 1:
    r = one(20.)
    sys.stdout = sys.__stdout__
    print(json.dumps(r))
    os._exit(0)
alone = json.loads(subprocess.check_output([sys.executable, '-B', __file__, 'alone']).decode().strip().splitlines()[-1])
one(12.)
ok(one(20.) == alone, 'the same setup gives something else after a computation with another grid')
'''
