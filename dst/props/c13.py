"""Energy and entropy are conserved whatever the collisions do."""
import math
import os
import random

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, violation

PROFILES = ['small', 'gauss']
RUNS = {'quick': 1600, 'thorough': 20000}
RULE = ('one run = one seeded setup with small steps whose collision integrals answer with rates and attractors that are smooth or change in every step and for '
        'every reaction (energy injected into and taken out of any species), with oscillations, decouplings, failed and retried steps and segments; for every '
        'pair of neighbouring steps in one regime the first law is checked with the energy densities and pressures of the species; entropy while '
        'all are in equilibrium; the sum over the flavours with and without oscillations under equal collisions; non-trivial: at least 3 pairs were checked; distinct by history')
ASSUMPTIONS = ['tolerance: 1.5 d^2 + 3 d X + 3 X^2 of the energy density, d the step in ln a and X the share of energy exchanged in it (explicit Euler); with the '
               'multistep temperature solver, only smooth exchange is used and 0.2 X is added',
               'pairs of steps in which a species changes its regime or decouples are left out (its energy is then computed by another quadrature)']
MUST_REACH = ['pairs', 'jumpy', 'heated', 'oscillations', 'linear_step', 'entropy_checked', 'failures', 'mixing']


class Injected(Exception):
    pass


class Stop(BaseException):
    pass


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(5, 25), sterile=.15, kawano=False)
    spec['monitor'] = True
    if rng.random() < .4:
        spec['T0'] = rng.choice([.15, .3, .6, 1., 30.])
        if spec['T0'] > 20 and rng.random() < .7:
            spec['particles'].append(['muon', {}])
    dy = rng.choice([.002, .005, .01, .02])
    if spec['mode'] == 'log':
        spec['dy'] = dy
    else:
        spec['dx'] = dy / spec['T0']
    spec['h'] = dy
    if os.environ.get('SIMPSONS_NONEQ_PARTICLES') == '':
        # the energy exchanged is integrated over the interpolated integrals: a grid that resolves them
        spec['samples'], spec['pmax'] = rng.choice([33, 33, 65, 97]), rng.choice([10., 20.])
        spec.pop('grid', None)
        for p in spec['particles']:
            if p[0] == 'heavy':
                p[1]['boson'] = False       # 1/p at small momenta is not resolved by the interpolation
    spec['T1'] = spec['T0'] * (1 + dy) ** (-(spec['steps'] - .5))
    for p in spec['particles']:
        if p[0].startswith('nu') or p[0] in ('heavy', 'sterile'):
            p[1]['dec'] = spec['T0'] * rng.choice([.01, 1.5, 1.5, (1 + dy) ** (-spec['steps'] // 2)])
    spec['stub'] = {'k': rng.choice([.001, .003, .01]), 'eps': rng.choice([.1, .5, .9])}
    jumpy = rng.random() < .6
    if jumpy:
        spec['env']['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = ''
    if rng.random() < .2:
        spec['interactions'] = []
    if rng.random() < .25:
        for p in spec['particles']:
            if 'dec' in p[1]:
                p[1]['dec'] = spec['T0'] * .01
    if rng.random() < .15:
        # the same collisions with and without oscillations
        spec['particles'] = [p for p in spec['particles'] if not p[0].startswith('nu')] + [[n, {'dec': spec['T0'] * 1.5}] for n in ('nu_e', 'nu_mu', 'nu_tau')]
        spec['interactions'] = ['weak']
        spec['osc'] = rng.choice(['matter', 'vacuum'])
        spec['samples'] = min(spec['samples'], 33)          # no cut below zero after interpolation
        return {'spec': spec, 'mixing': True, 'values': rng.randrange(1 << 30), 'cuts': [rng.random() for _ in range(rng.choice([0, 2]))],
                'fail': [rng.randint(1, 80) for _ in range(rng.choice([0, 0, 2]))], 'jumpy': False}
    return {'spec': spec, 'jumpy': jumpy, 'values': rng.randrange(1 << 30), 'cuts': sorted(rng.random() for _ in range(rng.choice([0, 0, 2]))),
            'fail': [rng.randint(1, 80) for _ in range(rng.choice([0, 0, 2]))]}


def flavours(plan, w, osc, fails):
    """ sum of the distributions of the three flavours after every step, with collisions that are the same with and without oscillations """
    spec = dict(plan['spec'], osc=plan['spec']['osc'] if osc else None)
    s = scen.Setup(spec, world=w, log_rate=1e9)
    K = stub_integral.CollisionIntegralKind
    calls = [0, 0]              # row, calls in it
    fails = set(fails)

    def hook(n, ps, reaction, stepsize, kind, values):
        if calls[0] != len(s.u.data):
            calls[:] = [len(s.u.data), 0]
        calls[1] += 1
        if n in fails:
            fails.discard(n)
            calls[0] = -1
            w.count('failures')
            raise Injected()
        if kind in (K.F_f, K.F_f_vacuum_decay, K.F_decay):
            return numpy.zeros(len(values))
        r = random.Random(repr((plan['values'], calls)))
        ps = numpy.asarray(ps, dtype=float)
        return r.choice([-1., -.3, 0., .5, 1.]) * 1e-3 / numpy.max(numpy.abs(stepsize)) / (numpy.exp(ps) + 1.) * (1. + .5 * numpy.cos(r.random() * 3. * ps))
    stub_integral.ctl.reset()
    stub_integral.ctl.hook = hook
    out, apart = [], [0.]

    def monitor(u):
        fs = [numpy.array(s.p[n]._distribution, dtype=float) for n in ('nu_e', 'nu_mu', 'nu_tau')]
        out.append(sum(fs))
        apart[0] = max(apart[0], float(numpy.max(numpy.abs(fs[0] - fs[1]))))
        if len(out) > 5 * spec['steps'] + 30:
            raise Stop()
    s.monitors.append(monitor)
    T0, T1 = spec['T0'], spec['T1']
    todo = [T0 + (T1 - T0) * c for c in sorted(plan['cuts'])] + [T1]
    while todo:
        try:
            s.run(todo[0], export=False, init_time=not len(s.u.data))
        except Injected:
            continue
        todo.pop(0)
    return s, out, apart[0]


def mixing(plan, w):
    bad = []
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    try:
        s0, plain, apart = flavours(plan, w, False, [])
        s, mixed, _ = flavours(plan, w, True, plan['fail'])
    except Stop:
        return [violation('no end', '')]
    for k, (a, b) in enumerate(zip(plain, mixed)):
        d = float(numpy.max(numpy.abs(a - b)))
        if not d <= 1e-11:
            bad.append(violation('flavours not conserved', 'step {}: oscillations changed the sum of the distributions of the flavours by {:.3e}'.format(k, d)))
            break
    if len(plain) != len(mixed):
        bad.append(violation('flavours not conserved', '{} steps with oscillations, {} without'.format(len(mixed), len(plain))))
    w.count('mixing', int(apart > 1e-6))
    w.count('steps', len(plain) + len(mixed))
    w.count('nontrivial', int(apart > 1e-6))
    w.digest = scen.digest([s.fingerprint(), plan['values']])
    return bad


def execute(plan, w):
    if plan.get('mixing'):
        return mixing(plan, w)
    bad = []
    spec = plan['spec']
    if plan['jumpy']:
        spec['env'] = dict(spec.get('env') or {}, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='')
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    s = scen.Setup(spec, world=w, log_rate=1e9)
    rng = random.Random(plan['values'])
    fails = set(plan['fail'])
    K = stub_integral.CollisionIntegralKind
    level = {}

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in fails:
            fails.discard(n)
            w.count('failures')
            raise Injected()
        if plan['jumpy']:
            # another rate and another attractor in every step, for every reaction
            key = (len(s.u.data), tuple((round(r.specie.m, 9), r.side) for r in reaction))
            if key not in level:
                r = random.Random(repr((plan['values'], key)))
                level[key] = r.choice([0., .3, 1., 3.]), r.choice([.5, .9, 1., 1.1, 2.])
                w.count('jumpy')
            a, b = level[key]
            values = numpy.array(values) * a
            if kind in (K.F_1, K.F_1_vacuum_decay, K.F_creation, K.Full, K.Full_vacuum_decay):
                values = values * b
        return values
    stub_integral.ctl.hook = hook
    samples = []

    def monitor(u):
        rho = sum(float(p.energy_density) for p in u.particles)
        P = sum(float(p.pressure) for p in u.particles)
        S = sum(float(p.entropy) for p in u.particles)
        kinds = tuple((n, s.p[n].regime.name, bool(s.p[n].in_equilibrium)) for n in s.order)
        # energy exchanged with the species out of equilibrium in this step
        net, gross = 0., 0.
        for p in u.particles:
            if p.in_equilibrium:
                continue
            y = p.grid.TEMPLATE
            flow = p.dof / 2. / math.pi**2 * y**2 * numpy.sqrt(y**2 + (p.mass * u.params.a)**2) * p.collision_integral * float(u.params.h) / float(u.params.a)**4
            net += float(numpy.trapz(flow, y))
            gross += float(numpy.trapz(numpy.abs(flow), y))
        samples.append((float(u.params.a), rho, P, S, kinds, net / rho, gross / rho, float(u.fraction * u.params.h / u.params.aT)))
        if len(samples) > 5 * spec['steps'] + 30:
            raise Stop()
    s.monitors.append(monitor)
    T0, T1 = spec['T0'], spec['T1']
    todo = [T0 + (T1 - T0) * c for c in plan['cuts']] + [T1]
    try:
        while todo:
            try:
                s.run(todo[0], export=False, init_time=not len(s.u.data))
            except Injected:
                continue
            todo.pop(0)
    except Stop:
        bad.append(violation('no end', ''))
    since = 0
    euler = 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION' in spec['env']
    pairs = 0
    for k in range(1, len(samples)):
        a, b = samples[k - 1], samples[k]
        since = since + 1 if a[4] == b[4] else 0
        if since < (2 if euler else 7):
            continue
        pairs += 1
        d = math.log(b[0] / a[0])
        r = (b[1] - a[1] + 1.5 * d * (a[1] + a[2] + b[1] + b[2])) / b[1]
        X = a[6]
        w.count('heated', int(abs(a[5]) > d * d))
        tol = 1.5 * d * d + 3. * d * X + 3. * X * X
        if os.environ.get('SIMPSONS_NONEQ_PARTICLES') == '':
            # the exchanged energy is integrated over the interpolated collision integrals
            tol += .12 * (spec['pmax'] / (spec['samples'] - 1))**2 * X
        if not euler:
            near = samples[max(0, k - 7):k]
            tol += .2 * max(x[6] for x in near)
            # kinematic bounds on a coarse grid switch reactions on and off from step to step
            tol += 8. * max(abs(x[5] - y[5]) for x, y in zip(near, near[1:]))
        if CAL:
            w.stats['_worst'] = max(w.stats.get('_worst', 0), abs(r) / tol)
        if not abs(r) <= tol:
            bad.append(violation('energy not conserved', 'step {}: energy density off by {:.3e} of itself, allowed {:.3e} (step {:.3e} in ln a, {:+.3e} exchanged)'.format(
                k, r, tol, d, a[5])))
        if all(x[2] for x in a[4]):
            w.count('entropy_checked')
            q = math.log(b[3] * b[0]**3 / (a[3] * a[0]**3))
            if CAL:
                w.stats['_S'] = max(w.stats.get('_S', 0), abs(q) / d**2)
            if not abs(q) <= 1.5 * d * d:
                bad.append(violation('entropy not conserved', 'step {}: comoving entropy changed by {:.3e} of itself, all species in equilibrium (step {:.3e})'.format(k, q, d)))
    w.count('pairs', pairs)
    w.count('steps', len(samples))
    w.count('oscillations', int(bool(spec.get('osc'))))
    w.count('linear_step', int(spec['mode'] == 'lin'))
    w.count('nontrivial', int(pairs >= 3))
    w.digest = scen.digest([s.fingerprint(), plan['values']])
    return bad[:3]


CAL = False
