"""The history solves the Friedmann, energy and Boltzmann equations: comparison with a small independent integration of the same equations."""
import math
import random

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, violation

RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('one run = one seeded setup (particle content, temperatures, step, collisions that are linear in the distribution with rates depending on momentum, '
        'species and time, decoupling before or in the run) computed in 1-4 segments with failed and retried steps; the temperature and the time of every row and '
        'every final distribution function are compared with an independent Runge-Kutta integration of the equations; non-trivial: a distribution or a T a '
        'changed by more than ten times the tolerance; distinct by history')
ASSUMPTIONS = ['tolerance: first order in the step relative to the change (the step in ln a is dy - dy^2/2 + ..), second order absolutely; energies of species '
               'out of equilibrium by Simpson\'s rule on their grid in both computations']
MUST_REACH = ['f_compared', 'aT_compared', 'failures', 'segments', 'decoupled_in_run', 'linear_step', 'split_kinds', 'euler', 'majorana']
X, WTS = numpy.polynomial.legendre.leggauss(80)


class Injected(Exception):
    pass


class Stop(BaseException):
    pass


def make_plan(rng, tier):
    T0 = rng.choice([.3, .6, 1., 2., 3., 10., 20.])
    dy = rng.choice([.004, .006, .01, .02])
    n = rng.randint(12, 60 if dy < .02 else 40)
    parts = [['photon', {}]]
    if rng.random() < .85:
        parts.append(['electron', {}])
    if T0 >= 20 and rng.random() < .5:
        parts.append(['muon', {}])
    samples = [33, 37, 41, 45]
    rng.shuffle(samples)
    for nu in ('nu_e', 'nu_mu', 'nu_tau'):
        if rng.random() < .75:
            r = rng.random()
            dec = T0 * 1.5 if r < .6 else T0 * (1. + dy) ** (-rng.randint(1, n)) if r < .85 else T0 * .001
            parts.append([nu, {'dec': dec, 'samples': samples.pop(), 'pmax': rng.choice([12., 16., 20.])}])
    if rng.random() < .3:
        parts.append(['heavy', {'n': 0, 'mass': T0 * rng.choice([.01, .5, 3.]), 'dof': rng.choice([1, 2, 4]), 'boson': False, 'dec': T0 * rng.choice([.001, .001, 1.5])}])
        if parts[-1][1]['dec'] > T0:
            parts[-1][1].update(samples=samples.pop(), pmax=20.)
    for name, extra in parts:
        if name != 'photon' and rng.random() < .2:
            extra['set'] = {'dof': rng.choice([1, 2, 4])}
        if name.startswith('nu') and rng.random() < .2:
            extra.setdefault('set', {})['majorana'] = True
    rng.shuffle(parts)
    spec = {'T0': T0, 'particles': parts, 'interactions': ['weak'] if rng.random() < .9 else [], 'kawano': False, 'env': {}, 'steps': n, 'monitor': True,
            'T1': T0 * (1. + dy) ** (-(n - .5)), 'h': dy}
    if rng.random() < .2:
        spec['mode'], spec['dx'] = 'lin', dy / T0
    else:
        spec['mode'], spec['dy'] = 'log', dy
    if rng.random() < .25:
        spec['env']['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = ''
    if rng.random() < .2:
        spec['env']['LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'] = ''
    top = .04 / dy / 6.
    return {'spec': spec, 'rate': top * rng.choice([.02, .1, .3, 1.]), 'level': rng.choice([.3, .8, 1.1, 1.3]), 'values': rng.randrange(1 << 20), 'split': rng.random() < .25,
            'omega': rng.choice([0., 2., 6.]), 'cuts': sorted(rng.random() for _ in range(rng.choice([0, 0, 1, 3]))), 'fail': sorted(rng.randint(1, 300) for _ in range(rng.choice([0, 0, 2])))}


class Rates(object):
    """ df/dN = a(y, N) + b(y, N) f per reaction """
    def __init__(self, plan, species):
        r = random.Random(plan['values'])
        self.w = {n: (r.uniform(.5, 1.5), r.uniform(0., 6.)) for n in species}
        self.plan = plan

    def b(self, name, y, N):
        w, phase = self.w[name]
        return -self.plan['rate'] * w * (.3 + y / (1. + y)) * (1. + .3 * math.sin(self.plan['omega'] * N + phase))

    def a(self, name, y, N):
        return -self.b(name, y, N) * self.plan['level'] / (numpy.exp(y) + 1.) * (1. + .4 * numpy.cos(y))


def fluid(mass, dof, eta, T):
    """ energy density and pressure of an ideal gas in equilibrium """
    p = T * 25. * (X + 1.)
    E = numpy.sqrt(p * p + mass * mass)
    f = 1. / (numpy.exp(numpy.minimum(E / T, 700.)) + eta)
    c = dof / 2. / math.pi**2 * T * 25. * WTS
    return float(numpy.sum(c * p * p * E * f)), float(numpy.sum(c * p**4 / 3. / E * f))


def simpson(v, x):
    h = x[1] - x[0]
    return h / 3. * (v[0] + v[-1] + 4. * numpy.sum(v[1:-1:2]) + 2. * numpy.sum(v[2:-1:2]))


class Reference(object):
    """ dT/dN from the energy of the plasma, df/dN from the collisions, dt/dN = 1/H """
    def __init__(self, species, rates, counts, M_p, unit, T0, a0):
        self.sp, self.rates, self.counts, self.M_p, self.unit = species, rates, counts, M_p, unit
        self.T, self.a, self.N = T0, a0, 0.
        self.f = {}
        self.tv = {}
        self.aTtv = 0.

    def decouple(self, decoupled):
        for n, s in self.sp.items():
            if n not in self.f and n in decoupled:
                y = s['grid']
                E = numpy.sqrt(y**2 + (s['mass'] * self.a)**2)
                self.f[n] = 1. / (numpy.exp(E / (self.a * self.T)) + s['eta'])
                self.tv[n] = numpy.zeros(len(y))

    def densities(self, T, f, a):
        rho, eqr, eqP = 0., 0., 0.
        for n, s in self.sp.items():
            if n in f:
                y = s['grid']
                rho += s['dof'] / 2. / math.pi**2 / a**4 * simpson(y**2 * numpy.sqrt(y**2 + (s['mass'] * a)**2) * f[n], y)
            else:
                r, P = fluid(s['mass'], s['dof'], s['eta'], T)
                eqr += r
                eqP += P
        return rho + eqr, eqr, eqP

    def slope(self, N, T, f):
        a = self.a * math.exp(N - self.N)
        df, Q = {}, 0.
        for n in f:
            s, y = self.sp[n], self.sp[n]['grid']
            na, nb = self.counts[n]
            df[n] = na * self.rates.a(n, y / self.unit, N) + nb * self.rates.b(n, y / self.unit, N) * f[n] if na or nb else numpy.zeros(len(y))
            Q += s['dof'] / 2. / math.pi**2 / a**4 * simpson(y**2 * numpy.sqrt(y**2 + (s['mass'] * a)**2) * df[n], y)
        rho, r, P = self.densities(T, f, a)
        e = 1e-4 * T
        drdT = (self.densities(T + e, f, a)[1] - self.densities(T - e, f, a)[1]) / (2. * e)
        return (-3. * (r + P) - Q) / drdT, df, self.M_p / math.sqrt(8. * math.pi / 3. * rho)

    def advance(self, a):
        dN = math.log(a / self.a)
        k = []
        for c, j in ((0., 0), (.5, 0), (.5, 1), (1., 2)):
            T, f = self.T, self.f
            if c:
                T = self.T + c * dN * k[j][0]
                f = {n: self.f[n] + c * dN * k[j][1][n] for n in self.f}
            k.append(self.slope(self.N + c * dN, T, f))
        mix = lambda i: (k[0][i] + 2. * k[1][i] + 2. * k[2][i] + k[3][i]) / 6.
        self.t += dN * mix(2)
        old, flow = self.T * self.a, 0.
        self.T += dN * mix(0)
        for n in self.f:
            d = dN * (k[0][1][n] + 2. * k[1][1][n] + 2. * k[2][1][n] + k[3][1][n]) / 6.
            self.f[n] = self.f[n] + d
            self.tv[n] += numpy.abs(d)
            s, y = self.sp[n], self.sp[n]['grid']
            flow += s['dof'] / 2. / math.pi**2 * simpson(y**2 * numpy.sqrt(y**2 + (s['mass'] * a)**2) * numpy.abs(d), y) / a**3
        self.N += dN
        self.a = a
        e = 1e-4 * self.T
        self.aTtv += abs(self.T * self.a - old) + flow / (self.densities(self.T + e, {}, a)[1] - self.densities(self.T - e, {}, a)[1]) * 2. * e


CAL = None


def execute(plan, w):
    bad = []
    spec = plan['spec']
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    s = scen.Setup(spec, world=w, log_rate=1e9)
    K = stub_integral.CollisionIntegralKind
    u, MeV = s.u, s.UNITS.MeV
    majorana = {n for n in s.order if s.p[n].majorana}
    w.count('majorana', len(majorana))
    counts = {n: [0, 0] for n in s.order}
    names = {id(s.p[n]): n for n in s.order}
    by_grid = {}
    for n in s.order:
        by_grid[len(s.p[n].grid.TEMPLATE)] = n
    m = 0
    for inter in u.interactions:
        for integral in inter.integrals:
            n = names[id(integral.particle)]
            kind = None
            if plan['split']:
                integral.kind = kind = K.F_1 if m % 2 else K.F_f
                m += 1
            counts[n][0] += kind != K.F_f
            counts[n][1] += kind != K.F_1
    rates = Rates(plan, sorted(s.order))
    from common import CONST
    species = {n: {'mass': float(s.p[n].mass), 'dof': float(s.p[n].dof), 'eta': float(s.p[n].eta), 'grid': numpy.array(s.p[n].grid.TEMPLATE, dtype=float),
                   'dec': float(s.p[n].decoupling_temperature)} for n in s.order}
    a0 = float(u.params.a)
    ref = Reference(species, rates, counts, float(CONST.M_p), MeV, float(u.params.T), a0)
    fails = set(plan['fail'])
    seen = [0]

    def hook(n, ps, reaction, stepsize, kind, values):
        seen[0] += 1
        if seen[0] in fails:
            w.count('failures')
            raise Injected()
        name = by_grid[len(reaction[0].specie.grid.grid)]
        aT, x, h = float(u.params.aT), float(u.params.x), float(u.params.h)
        y = numpy.asarray(ps, dtype=float) * aT / MeV
        N = math.log(float(u.params.a) / a0)
        rate = rates.b(name, y, N) if kind in (K.F_f,) else rates.a(name, y, N)
        per = h / stepsize if spec['mode'] == 'log' else h / aT / stepsize / x
        T, H = aT / float(u.params.a), float(u.params.H)
        want = 32. * float(CONST.G_F)**2 * T**5 / 64. / math.pi**3 / H / (species[name]['dof'] / (1. if name in majorana else 2.)) / (1. if spec['mode'] == 'log' else x)
        got = rate_unit = 1. / per * (1. if spec['mode'] == 'log' else 1. / x)
        if not abs(got - want) <= 1e-9 * want:
            bad.append(violation('rate normalisation', '{}: the collision integral is multiplied by {!r} instead of {!r}'.format(name, got, want)))
        return rate * per
    stub_integral.ctl.hook = hook
    steps = [0]

    out = {}

    def monitor(u):
        steps[0] += 1
        out[len(u.data) - 1] = {n for n in s.order if not s.p[n].in_equilibrium}
        if steps[0] > 5 * spec['steps'] + 30:
            raise Stop()
    s.monitors.append(monitor)
    T0, T1 = spec['T0'], spec['T1']
    todo = [T0 + (T1 - T0) * c for c in plan['cuts']] + [T1]
    w.count('segments', len(todo))
    try:
        while todo:
            try:
                s.run(todo[0], export=False, init_time=not len(u.data))
            except Injected:
                continue
            todo.pop(0)
    except Stop:
        return [violation('no end', '')]
    h = s.history()
    dy = spec['h']
    euler = 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION' in spec['env']
    T_, t, aT = [float(x) for x in h['T']], [], []
    early = set()
    jump, jumps = 0., []
    for k, a in enumerate(h['a']):
        if k:
            ref.advance(float(a))
        aT.append((ref.T * ref.a, ref.aTtv))
        before = set(ref.f)
        ref.decouple(out.get(k, ()))
        if k and set(ref.f) != before:
            jump += 4. * dy * ref.a * abs(ref.slope(ref.N, ref.T, ref.f)[0] - ref.slope(ref.N, ref.T, {n: ref.f[n] for n in before})[0])
        jumps.append(jump)
        if not k:
            ref.t = math.sqrt(3. * ref.M_p**2 / (32. * math.pi * ref.densities(ref.T, ref.f, ref.a)[0]))
        t.append(ref.t)
        for n in species:
            if k in out and (n in out[k]) != (min(T_[:k + 1]) <= species[n]['dec']):
                bad.append(violation('decoupling', 'row {}: {} at T = {!r} decouples at {!r} but is {}in equilibrium'.format(k, n, T_[k], species[n]['dec'], '' if n not in out[k] else 'not ')))
        if not k:
            early = set(ref.f)
    late = [n for n in ref.f if n not in early]
    G = max([0.] + [plan['rate'] * 1.5 * 1.3 * 1.3 * counts[n][1] for n in ref.f] + [plan['rate'] * 1.5 * 1.3 * counts[n][0] for n in ref.f])
    om = max(1., plan['omega'])
    worst = [0., 0., 0.]
    strong = 0
    for k in range(len(aT)):
        want, tv = aT[k]
        tol = (1.4 + (2. if euler else 0.) + C2 * (G + om)) * dy * tv + (dy * dy + C3 * (dy * (G + om))**2) * tv / max(k, 1) + jumps[k] + 2e-5 * want
        d = abs(float(h['aT'][k]) - want)
        worst[0] = max(worst[0], d / tol)
        strong = max(strong, tv / tol)
        if d > tol:
            bad.append(violation('temperature', 'row {}: a T is {!r} instead of {!r}, allowed {:.2e} (changed by {:.2e} since the start)'.format(k, float(h['aT'][k]), want, tol, tv)))
            break
    for k in range(len(t)):
        d, tol = abs(float(h['t'][k]) - t[k]), 2. * dy * abs(t[k] - t[0]) + 1e-9 * t[k] + 2. * dy * t[0] * (k > 0) + 1e-5 * t[k]
        worst[2] = max(worst[2], d / tol)

        if d > tol:
            bad.append(violation('time', 'row {}: t is {!r} instead of {!r}'.format(k, float(h['t'][k]), t[k])))
            break
    for n in ref.f:
        p = s.p[n]
        if p.in_equilibrium:
            if n not in late:
                bad.append(violation('still in equilibrium', n))
            continue
        f = numpy.array(p._distribution, dtype=float)
        scale = numpy.maximum(ref.tv[n], 1e-300)
        steps_ = max(1, len(aT) - 1)
        tol = (2. + C1 * (G + om)) * dy * ref.tv[n] + 1e-9 * ref.f[n] + 1e-14
        if n in late:
            tol = tol + (6. * dy * (1. + G)) * numpy.maximum(ref.f[n], 1e-12) + 2. * ref.tv[n] / steps_
        if plan['split']:
            tol = tol + 2. * (dy * (G + om)) * ref.tv[n] / steps_
        d = numpy.abs(f - ref.f[n])
        worst[1] = max(worst[1], float(numpy.max(d / tol)))
        strong = max(strong, float(numpy.max(ref.tv[n] / tol)))
        if numpy.any(d > tol):
            j = int(numpy.argmax(d / tol))
            bad.append(violation('distribution', '{}: f is {!r} instead of {!r} at grid point {}, allowed {:.2e} (changed by {:.2e} since the start)'.format(
                n, float(f[j]), float(ref.f[n][j]), j, tol[j], ref.tv[n][j])))
        w.count('f_compared', int(ref.tv[n].max() > 0))
    if CAL:
        bad = [b for b in bad if b['class'] not in ('temperature', 'time', 'distribution')]
        open(CAL, 'a').write(repr((worst, spec['mode'], euler, bool(late), plan['split'], G, dy, om, len(aT), plan['values'], T0)) + '\n')
    w.count('aT_compared', len(aT))
    w.count('decoupled_in_run', len(late))
    w.count('linear_step', int(spec['mode'] == 'lin'))
    w.count('split_kinds', int(plan['split']))
    w.count('euler', int(euler))
    w.count('steps', steps[0])
    w.count('nontrivial', int(strong > 10.))
    w.digest = scen.digest([s.fingerprint(), plan['values']])
    return bad[:3]


C1, C2, C3 = 1., .7, 2.
