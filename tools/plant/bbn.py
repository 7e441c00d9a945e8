"""Small universes for the demonstrations: the compiled collision integrals cannot be built here, a cheap relaxation term stands in for them."""
import contextlib
import enum
import io
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
os.environ.update(MOMENTUM_SAMPLES='25', MAX_MOMENTUM_MEV='20')
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
import numpy  # noqa


class CollisionIntegralKind(enum.IntEnum):
    Full, F_1, F_f, Full_vacuum_decay, F_1_vacuum_decay, F_f_vacuum_decay, F_creation, F_decay = range(8)


class M_t(object):
    def __init__(self, order, K1, K2, K):
        self.order, self.K1, self.K2, self.K = tuple(order), K1, K2, K


class grid_t(object):
    def __init__(self, grid, distribution):
        self.grid, self.distribution = numpy.array(grid, float), numpy.array(distribution, float)


class particle_t(object):
    def __init__(self, m, grid, eta, in_equilibrium, T):
        self.m, self.grid, self.eta, self.in_equilibrium, self.T = m, grid, eta, in_equilibrium, T


class reaction_t(object):
    def __init__(self, specie, side):
        self.specie, self.side = specie, side


def distribution_interpolation(grid, distribution, p, m, eta, T, in_equilibrium):
    return numpy.interp(p, grid, distribution)


class hand(object):
    """ what the collision integrals answer """
    calls = 0
    hook = None


def answer(ps, reaction, stepsize, kind):
    hand.calls += 1
    ps = numpy.asarray(ps, float)
    s = reaction[0].specie
    w = 0.05 / numpy.max(numpy.abs(stepsize)) * (0.25 + ps / (1 + ps))
    feq = 1. / (numpy.exp(numpy.minimum(numpy.sqrt(ps**2 + s.m**2), 600)) + s.eta)
    feq[~numpy.isfinite(feq)] = 0
    A, B = w * feq * (1 + .2 * numpy.cos(ps)), -w
    if kind in (1, 4, 6):
        out = A
    elif kind in (2, 5, 7):
        out = B
    else:
        out = A + B * numpy.interp(ps, s.grid.grid, s.grid.distribution)
    if hand.hook:
        out = hand.hook(hand.calls, ps, reaction, out)
    return [float(x) for x in out]


def integration(ps, min_2, max_2, min_3, max_3, max_4, reaction, Ms, stepsize, kind):
    return answer(ps, reaction, stepsize, kind)


def integration_3(ps, min_1, max_1, max_2, reaction, stepsize, kind):
    return answer(ps, reaction, stepsize, kind)


four = types.ModuleType('interactions.four_particle.cpp.integral')
three = types.ModuleType('interactions.three_particle.cpp.integral')
for n, x in dict(CollisionIntegralKind=CollisionIntegralKind, M_t=M_t, grid_t=grid_t, particle_t=particle_t, reaction_t=reaction_t,
                 distribution_interpolation=distribution_interpolation, integration=integration).items():
    setattr(four, n, x)
for n, x in dict(CollisionIntegralKind=CollisionIntegralKind, grid_t3=grid_t, particle_t3=particle_t, reaction_t3=reaction_t,
                 integration_3=integration_3).items():
    setattr(three, n, x)
sys.modules[four.__name__], sys.modules[three.__name__] = four, three

from evolution import Universe  # noqa
from particles import Particle  # noqa
from common import Params, UNITS, LinearSpacedGrid  # noqa
from library.SM import particles as SMP, interactions as SMI  # noqa
MeV = UNITS.MeV


def universe(folder=None, T=5., dy=.05, nus=('neutrino_e', 'neutrino_mu'), dec=None, weak=True, kawano=False, rate=1e9, grid=None, freq=None, electron=True, more=()):
    u = Universe(folder=folder, params=Params(T=T * MeV, dy=dy), max_log_rate=rate)
    g = grid or LinearSpacedGrid(MOMENTUM_SAMPLES=17, MAX_MOMENTUM=20 * MeV)
    ps = {'photon': Particle(**SMP.photon)}
    if electron:
        ps['electron'] = Particle(**SMP.leptons.electron)
    for n in nus:
        d = dict(getattr(SMP.leptons, n), grid=g)
        d['decoupling_temperature'] = (T * 1.5 if dec is None else dec) * MeV
        ps[n] = Particle(**d)
    for i, d in enumerate(more):
        ps[i] = Particle(**d)
    u.add_particles(list(ps.values()))
    if weak:
        u.interactions += SMI.neutrino_interactions(leptons=[ps['electron']] if electron else [], neutrinos=[ps[n] for n in nus])
    if kawano:
        u.init_kawano(electron=ps['electron'], neutrino=ps['neutrino_e'])
    if freq:
        u.export_freq = freq
    u.p = ps
    return u


def steps(u, n, first=False, **kw):
    for i in range(n):
        with quiet():
            u.evolve(u.params.T * (1 - 1e-9), export=False, init_time=first and i == 0)


@contextlib.contextmanager
def quiet():
    """ nothing on the terminal (a log file still gets everything) """
    old = sys.stdout
    target = old
    while hasattr(target, 'terminal'):
        holder, target = target, target.terminal
    null = io.StringIO()
    if target is old:
        sys.stdout = null
    else:
        holder.terminal = null
    try:
        yield null
    finally:
        if target is old:
            if sys.stdout is null:
                sys.stdout = old
        else:
            holder.terminal = target


def history(u):
    return {c: [float(x).hex() for x in u.data[c]] for c in u.data.columns}


def ok(condition, text):
    if not condition:
        sys.__stdout__.write('BROKEN: {}\n'.format(text))
        sys.__stdout__.flush()
        os._exit(1)
