"""Brings up the code under test inside the simulator (once per zygote)."""
import os
import sys

from dst import world

PROFILES = {
    # environment fixed at import time
    'default': {},
    'small': {'MOMENTUM_SAMPLES': '25', 'MAX_MOMENTUM_MEV': '20', 'GAUSS_LEGENDRE_ORDER': '30', 'GAUSS_LAGUERRE_ORDER': '30'},
    'gauss': {'MOMENTUM_SAMPLES': '25', 'MAX_MOMENTUM_MEV': '20', 'SIMPSONS_NONEQ_PARTICLES': '', 'GAUSS_LEGENDRE_ORDER': '40',
              'GAUSS_LAGUERRE_ORDER': '40'},
}
# flags the code reads from the environment: nothing from outside may leak in
FLAGS = ['SPLIT_COLLISION_INTEGRAL', 'FIXED_ORDER_1D_QUADRATURE', 'GAUSS_LEGENDRE_ORDER', 'GAUSS_LAGUERRE_ORDER',
         'LOGARITHMIC_TIMESTEP', 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION', 'ADAMS_MOULTON_DISTRIBUTION_CORRECTION',
         'MOMENTUM_SAMPLES', 'MAX_MOMENTUM_MEV', 'MAX_SCALE_FACTOR', 'FOUR_PARTICLE_GRID_RESOLUTION',
         'NORMAL_HIERARCHY_NEUTRINOS', 'REGIME_SWITCHING_FACTOR', 'SIMPSONS_INTEGRATION', 'SIMPSONS_NONEQ_PARTICLES',
         'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES', 'Relativistic_decoupling', 'STERILE_DECAYED', 'KAWANO']


def boot(profile='small', integrals='stub'):
    for f in FLAGS:
        os.environ.pop(f, None)
    os.environ.update(PROFILES[profile])
    sys.dont_write_bytecode = True
    if world.REPO not in sys.path:
        sys.path.insert(0, world.REPO)
    import subprocess
    subprocess.Popen = world.SimPopen
    if integrals == 'stub':
        from dst import stub_integral
        stub_integral.install()
    else:
        from dst import native
        native.install()
    import warnings
    warnings.simplefilter('ignore')
    import evolution, particles, kawano, common, library  # noqa
    from library import SM, NuMSM  # noqa
    if getattr(kawano, 'Popen', None) is not None:
        kawano.Popen = world.SimPopen
