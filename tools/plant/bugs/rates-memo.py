PROPERTY = 'C02'
EDITS = [
    ('kawano.py',
     '    grid = particles.neutrino.grid\n\n    data = []\n    for',
     '    grid = particles.neutrino.grid\n\n    # Nothing to do if the state has not changed\n    if a in _known_rates:\n        return list(_known_rates[a])\n\n    data = []\n    for'),
    ('kawano.py',
     '        else:\n            data.append(0.)\n\n    return data\n',
     '        else:\n            data.append(0.)\n\n    _known_rates[a] = data\n    return list(data)\n'),
    ('kawano.py',
     'a = None\n\nParticles',
     'a = None\n_known_rates = {}\n\nParticles'),
]
NEEDS = 'two universes with KAWANO in one process that reach the same scale factor with different distributions'
BREAKS = 'neutron-proton rates are remembered per scale factor for the whole process'
DEMO = r'''
from bbn import *
def one():
    return universe(T=3., kawano=True, weak=False)
def two():
    return universe(T=3., kawano=True, dec=.1)
u, v = one(), two()
steps(u, 3, first=True); steps(v, 3, first=True)
rates = [[float(x) for x in v.kawano_data[c]] for c in v.kawano_data.columns[6:]]
import kawano
kawano.init_kawano(electron=v.p['electron'], neutrino=v.p['neutrino_e'])
a0 = v.params.a
fresh = kawano.baryonic_rates(a0 * (1 + 1e-12))
got = [c[-1] for c in rates]
ok(numpy.allclose(got, fresh, rtol=1e-6, atol=0), 'the rates of one universe were recorded for another: {} {}'.format(got, fresh))
'''
