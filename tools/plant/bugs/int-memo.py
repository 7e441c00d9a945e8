PROPERTY = 'C02'
EDITS = [
    ('particles/IntermediateParticle.py',
     'def Int(particle, y_power=2):\n',
     'known_integrals = {}\n\n\ndef Int(particle, y_power=2):\n    # Asked for several times in every step\n    key = (particle.name, y_power, particle.params.aT, particle.params.a)\n    if key not in known_integrals:\n        known_integrals[key] = calculate_Int(particle, y_power)\n    return known_integrals[key]\n\n\ndef calculate_Int(particle, y_power=2):\n'),
]
NEEDS = 'two universes in one process at the same state that contain species of one name with other properties'
BREAKS = 'thermodynamic integrals of one universe are used in another'
DEMO = r'''
from bbn import *
from common import statistics as ST
def one(dof):
    X = {'name': 'Heavy', 'symbol': 'X', 'statistics': ST.FERMION, 'dof': dof, 'majorana': False, 'Q': 0, 'flavour': None, 'mass': 2 * MeV}
    return universe(T=3., nus=(), weak=False, more=[X])
a = one(2)
steps(a, 2, first=True)
b = one(40)
steps(b, 2, first=True)
num, den = b.p[0].numerator(), b.p[0].denominator()
c = one(40)
import particles.IntermediateParticle as I
from particles import IntermediateParticle
ratio = b.data['aT'][-1]
y = b.p[0].grid
yy = numpy.linspace(y.MIN_MOMENTUM, y.MAX_MOMENTUM, 4001)
d = universe(T=3. * (1 + 1e-13), nus=(), weak=False, more=[dict({'name': 'Other', 'symbol': 'Y', 'statistics': ST.FERMION, 'dof': 40, 'majorana': False, 'Q': 0, 'flavour': None, 'mass': 2 * MeV})])
steps(d, 2, first=True)
ok(abs(d.data['aT'][-1] / ratio - 1) < 1e-9, 'a universe depends on what another one contains: {} {}'.format(ratio, d.data['aT'][-1]))
'''
