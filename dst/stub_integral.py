"""Stand-in for the compiled collision integrals (interactions/*/cpp/integral).

The simulated universe runs all Python code for real; only the quadrature behind a collision
integral is replaced by a cheap relaxation term, and every call is an event the simulator can
make fail, delay, or answer with arbitrary values.
"""
import enum
import sys
import types

import numpy


class CollisionIntegralKind(enum.IntEnum):
    Full = 0
    F_1 = 1
    F_f = 2
    Full_vacuum_decay = 3
    F_1_vacuum_decay = 4
    F_f_vacuum_decay = 5
    F_creation = 6
    F_decay = 7


class M_t(object):
    def __init__(self, order, K1, K2, K):
        self.order, self.K1, self.K2, self.K = tuple(order), K1, K2, K


class grid_t(object):
    def __init__(self, grid, distribution):
        self.grid = numpy.array(grid, dtype=float)
        self.distribution = numpy.array(distribution, dtype=float)


class particle_t(object):
    def __init__(self, m, grid, eta, in_equilibrium, T):
        self.m, self.grid, self.eta, self.in_equilibrium, self.T = m, grid, eta, in_equilibrium, T


class reaction_t(object):
    def __init__(self, specie, side):
        self.specie, self.side = specie, side


class Control(object):
    """ The simulator's hand on the stub """
    def __init__(self):
        self.reset()

    def reset(self):
        self.k = 0.05          # relaxation per step
        self.eps = 0.1         # deviation of the attractor from the equilibrium
        self.level = 1.        # creation rate against the one of the attractor
        self.calls = 0
        self.hook = None       # hook(n, ps, reaction, stepsize, kind, values) -> values


ctl = Control()


def distribution_interpolation(grid, distribution, p, m, eta, T, in_equilibrium):
    grid = numpy.asarray(grid, dtype=float)
    f = numpy.asarray(distribution, dtype=float)
    scalar = numpy.ndim(p) == 0
    p = numpy.atleast_1d(numpy.asarray(p, dtype=float))
    E = numpy.sqrt(p**2 + m**2)
    if in_equilibrium:
        out = 1. / (numpy.exp(E / T) + eta)
        return float(out[0]) if scalar else out
    Eg = numpy.sqrt(grid**2 + m**2)
    hi = numpy.clip(numpy.searchsorted(grid, p, side='left'), 1, len(grid) - 1)
    lo = hi - 1
    with numpy.errstate(all='ignore'):
        glo = numpy.log(1. / f[lo] - eta)
        ghi = numpy.log(1. / f[hi] - eta)
        g = ((E - Eg[lo]) * ghi + (Eg[hi] - E) * glo) / (Eg[hi] - Eg[lo])
        out = 1. / (numpy.exp(g) + eta)
    out[~numpy.isfinite(out)] = 0.
    # exact on the grid, Boltzmann tail above it
    out = numpy.where(p == grid[hi], f[hi], out)
    out = numpy.where(p == grid[lo], f[lo], out)
    out = numpy.where(p > grid[-1], f[-1] * numpy.exp((Eg[-1] - E) / T), out)
    return float(out[0]) if scalar else out


def _values(ps, reaction, stepsize, kind):
    ps = numpy.asarray(ps, dtype=float)
    specie = reaction[0].specie
    step = numpy.max(numpy.abs(stepsize))
    w = ctl.k / step * (0.25 + ps / (1. + ps))
    E = numpy.sqrt(ps**2 + specie.m**2)
    feq = 1. / (numpy.exp(numpy.minimum(E, 600.)) + specie.eta * 1.)
    feq = numpy.where(numpy.isfinite(feq), feq, 0.)
    A, B = ctl.level * w * feq * (1. + ctl.eps * numpy.cos(ps)), -w
    K = CollisionIntegralKind
    if kind in (K.F_1, K.F_1_vacuum_decay, K.F_creation):
        return A
    if kind in (K.F_f, K.F_f_vacuum_decay, K.F_decay):
        return B
    f = distribution_interpolation(specie.grid.grid, specie.grid.distribution, ps, specie.m,
                                   specie.eta, specie.T, specie.in_equilibrium)
    return A + B * f


def _call(ps, reaction, stepsize, kind):
    ctl.calls += 1
    values = None
    hook = ctl.hook
    values = _values(ps, reaction, stepsize, kind)
    if hook:
        values = hook(ctl.calls, ps, reaction, stepsize, kind, values)
    return [float(v) for v in values]


def integration(ps, min_2, max_2, min_3, max_3, max_4, reaction, Ms, stepsize, kind):
    return _call(ps, reaction, stepsize, kind)


def integration_3(ps, min_1, max_1, max_2, reaction, stepsize, kind):
    return _call(ps, reaction, stepsize, kind)


def install():
    four = types.ModuleType('interactions.four_particle.cpp.integral')
    three = types.ModuleType('interactions.three_particle.cpp.integral')
    for name in ('CollisionIntegralKind', 'M_t', 'grid_t', 'particle_t', 'reaction_t',
                 'distribution_interpolation', 'integration'):
        setattr(four, name, globals()[name])
    for name, what in (('grid_t3', grid_t), ('particle_t3', particle_t), ('reaction_t3', reaction_t),
                       ('integration_3', integration_3), ('CollisionIntegralKind', CollisionIntegralKind),
                       ('distribution_interpolation', distribution_interpolation)):
        setattr(three, name, what)
    sys.modules[four.__name__] = four
    sys.modules[three.__name__] = three
