PROPERTY = 'C22'
EDITS = [
    ('interactions/four_particle/__init__.py',
     "        constant = unit * (params.aT / params.a)**5 / 64. / numpy.pi**3 / params.H\n",
     "        constant = unit * self.particle.T**5 / 64. / numpy.pi**3 / params.H\n"),
]
NEEDS = 'a plasma that is heated after the species has decoupled, so that the species has no longer the temperature of the plasma'
BREAKS = 'the collision integrals of decoupled species are scaled with the temperature the species would have by itself'
DEMO = r'''
from bbn import *
u = universe(T=1., dy=.05)
seen = []
real = SMI and four.integration
import interactions.four_particle as fp
def spy(ps, *a):
    seen.append(float(numpy.max(numpy.abs(a[-2]))))
    return real(ps, *a)
fp.integration = spy
steps(u, 1, first=True)
# the annihilation of electrons heats the plasma but not the decoupled neutrinos
u.params.aT *= 1.2
u.params.T *= 1.2
del seen[:]
T, H, h = u.params.T, u.params.H, u.params.h
steps(u, 1)
from common import CONST
want = h * 32 * CONST.G_F**2 * T**5 / 64. / numpy.pi**3 / H
ok(seen and abs(seen[0] / want - 1) < 1e-6, 'the collision integrals are scaled by {} times the right rate'.format(seen and seen[0] / want))
'''
