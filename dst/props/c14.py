"""Every recorded row is a consistent state and the run reaches its end."""
import math

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, rand_clock, violation

RUNS = {'quick': 900, 'thorough': 16000}
PROFILES = ['small', 'gauss', 'default']
PROFILE_WEIGHTS = [8, 2, 1]
RULE = ('one run = one seeded setup (species, step kind and size, oscillations, decouplings, failed and retried steps, segments) evolved to its final '
        'temperature; every step is compared with an independent small model: scale factor, time by the Friedmann equation, sums over the species, '
        'N_eff, thermodynamics of each species by direct quadrature; liveness: the end is reached within three times the steps of pure redshift; '
        'non-trivial: at least 3 steps; distinct by history')
ASSUMPTIONS = ['energy densities of massive species in equilibrium are compared with direct quadrature to 2 per cent, very heavy ones (m > 10 T) to a factor (the code uses fixed-order rules up to 20 T)']
MUST_REACH = ['steps', 'failures', 'segments', 'massive', 'out_of_equilibrium', 'linear_step', 'temperature_rose', 'asked_again']

MeV = 1e-3
M_P = 1.2209e22 * MeV
SECOND = 1e22 / 6.582119 / MeV


class Injected(Exception):
    pass


class Stop(BaseException):
    pass


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(3, 25), sterile=.15, decay=.1, dust=True)
    spec['monitor'] = True
    spec['env'].pop('FOUR_PARTICLE_GRID_RESOLUTION', None)      # interpolated collisions overshoot: not resolved
    # relaxation slow enough for the step, or the explicit temperature equation is unstable
    spec['stub']['k'] = rng.choice([.003, .01, .02])
    if rng.random() < .2:
        # masses come into play
        spec['T0'] = rng.choice([1., .3, 40.])
        spec['kawano'] = False
        dy = spec.get('dy', .05)
        if spec['mode'] == 'lin':
            spec['dx'] = dy / spec['T0']
        spec['T1'] = spec['T0'] * (1 + dy) ** (-(spec['steps'] - .5))
        for p in spec['particles']:
            if 'dec' in p[1]:
                p[1]['dec'] = spec['T0'] * rng.choice([.01, 1.5, .8])
    heat = None
    if rng.random() < .25 and any(p[0].startswith('nu') for p in spec['particles']):
        # the plasma is heated for a while: the temperature rises from row to row
        if 'weak' not in spec['interactions']:
            spec['interactions'].append('weak')
        for p in spec['particles']:
            if p[0].startswith('nu'):
                p[1]['dec'] = spec['T0'] * 1.5
        heat = [rng.randint(2, 8), rng.randint(3, 12), rng.choice([.1, .2])]
    return {'spec': spec, 'heat': heat, 'again': rng.random(), 'faults': [rng.randint(1, 60) for _ in range(rng.choice([0, 0, 0, 1, 3]))],
            'cuts': sorted(rng.random() for _ in range(rng.choice([0, 0, 1, 3]))), 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9])}


def quadrature(m, T, g, eta):
    """ energy density and pressure of an ideal gas """
    p = numpy.linspace(0., 60. * T + 8. * math.sqrt(m * T), 6001)[1:]
    E = numpy.sqrt(p * p + m * m)
    with numpy.errstate(over='ignore'):
        f = 1. / (numpy.exp(E / T) + eta)
    c = g / 2. / numpy.pi**2
    h = p[1] - p[0]
    return c * float(numpy.sum(p * p * E * f)) * h, c * float(numpy.sum(p**4 / E * f)) * h / 3.


def simpson(y, x):
    """ composite Simpson for an odd number of equidistant or not samples; None if not applicable """
    if len(x) % 2 == 0:
        return None
    h = numpy.diff(x)
    if numpy.ptp(h) > 1e-9 * h.max():
        return None
    return h[0] / 3. * float(y[0] + y[-1] + 4. * y[1:-1:2].sum() + 2. * y[2:-1:2].sum())


def rel(a, b):
    return abs(a - b) / max(abs(a), abs(b), 1e-300)


def execute(plan, w):
    bad = []
    spec = plan['spec']
    arm_clock(w, plan['clock'])
    s = scen.Setup(spec, world=w, log_rate=plan['rate'])
    faults = set(plan['faults'])

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in faults:
            faults.discard(n)
            w.count('failures')
            raise Injected()
        return values
    stub_integral.ctl.hook = hook
    log = spec['mode'] == 'log'
    factor = float((spec.get('env') or {}).get('REGIME_SWITCHING_FACTOR', 1e3))
    seen = {}            # row number -> what the species summed up to in the step that gives it
    full = []
    heat = plan.get('heat')
    budget = 3 * spec['steps'] + 30 + (10 * heat[1] if heat else 0)

    def monitor(u):
        n = len(u.data)
        rho = sum(float(p.energy_density) for p in u.particles)
        ent = sum(float(p.entropy) for p in u.particles)
        seen[n] = (rho, ent, float(u.params.T), float(u.params.a), float(u.fraction))
        if set(map(id, u.particles)) != {id(p) for p in s.p.values()}:
            bad.append(violation('species lost', 'step {}: {} species instead of {}'.format(n, len(u.particles), len(s.p))))
        for name in s.order:
            p = s.p[name]
            if p.in_equilibrium:
                e, P = quadrature(p.mass, p.T, p.dof, p.eta)
                if p.T > p.mass * factor:
                    tol = 2e-3 + .6 * (p.mass / p.T)**2
                elif p.T * factor < p.mass:
                    # Maxwell-Boltzmann without relativistic corrections
                    x = p.T / p.mass
                    tol = 1.2 * (1. - 1. / (1. + 2.2 * x + 2. * x * x)) + 2e-2
                    w.count('dust')
                else:
                    # the code integrates to 20 T, which cuts the tail of very heavy species
                    tol = 2e-2 if p.mass < 10. * p.T else .2 if p.mass < 31. * p.T else numpy.inf
                    w.count('massive')
                for what, got, want in (('energy density', p.energy_density, e), ('pressure', p.pressure, P),
                                        ('entropy', p.entropy, (e + P) / p.T)):
                    d = rel(float(got), want)
                    if not d <= tol:
                        bad.append(violation('thermodynamics', 'step {}: {} of {} at T = {:.4g} MeV is {!r}, quadrature gives {!r}'.format(
                            n, what, name, p.T / MeV, float(got), want)))
            else:
                if p.eta > 0 and numpy.any(numpy.asarray(p._distribution) >= 1.):
                    full.append(n)          # more than one fermion in a state: no entropy
                w.count('out_of_equilibrium')
        if n > budget or bad:
            raise Stop()
        if heat:
            on = heat[0] <= n < heat[0] + heat[1]
            stub_integral.ctl.k, stub_integral.ctl.level = (heat[2], .05) if on else (spec['stub']['k'], 1.)
    s.monitors.append(monitor)
    T0, T1 = spec['T0'], spec['T1']
    first = [float(p.energy_density) for p in s.u.particles], [float(p.entropy) for p in s.u.particles]
    todo = [T0 + (T1 - T0) * c for c in plan['cuts']] + [T1]
    ends = []
    try:
        while todo:
            try:
                s.run(todo[0], export=False, init_time=not len(s.u.data))
            except Injected:
                continue
            ends.append((len(s.u.data), todo[0] * MeV))
            if plan.get('again', 0) > .5:
                # asking for a temperature that has been reached makes no step
                k = len(s.u.data)
                hold, faults = faults, set()
                s.u.evolve(s.u.params.T if plan['again'] < .85 else s.u.params.T * 1.1, export=False, init_time=False)
                faults = hold
                w.count('asked_again')
                if len(s.u.data) != k:
                    bad.append(violation('stopped late', '{} rows were made although the temperature had been reached exactly'.format(len(s.u.data) - k)))
                    return bad
            todo.pop(0)
            w.count('segments')
    except Stop:
        if not bad:
            bad.append(violation('no end', 'more than {} steps where pure redshift takes {}'.format(budget, spec['steps'])))
        return bad[:3]
    except SystemExit as e:
        if spec.get('decay') and not s.u.params.T > 0:
            # the energy of a heavy species set free within a step: not resolved
            raise scen.Unstable()
        bad.append(violation('no end', 'the program ended with status {}'.format(e.code)))
        return bad
    d = s.history()
    n = len(d['x'])

    def fail(i, cls, text):
        if len(bad) < 3:
            bad.append(violation(cls, 'row {}: {}'.format(i, text)))
    for i in range(n):
        row = {c: float(d[c][i]) for c in d}
        for c, v in row.items():
            if not math.isfinite(v) and not (c == 'S' and full):
                fail(i, 'not finite', '{} is {}'.format(c, v))
        if rel(row['T'], row['aT'] / row['a']) > 1e-12:
            fail(i, 'inconsistent row', 'T is {!r}, aT/a is {!r}'.format(row['T'], row['aT'] / row['a']))
        if rel(row['a'] * MeV, row['x']) > 1e-12:
            fail(i, 'inconsistent row', 'a is {!r}, x is {!r}'.format(row['a'], row['x']))
        if i == 0:
            rho, ent = sum(first[0]), sum(first[1])
            t0 = math.sqrt(3. / 32. / math.pi / rho) * M_P
            if rel(row['T'], T0 * MeV) > 1e-12:
                fail(0, 'inconsistent row', 'T is {!r}'.format(row['T']))
            if rel(row['t'], t0) > 1e-9:
                fail(0, 'inconsistent row', 't is {!r}, the energy density gives {!r}'.format(row['t'], t0))
            if rel(row['rho'], rho) > 1e-12 or rel(row['S'], ent) > 1e-12:
                fail(0, 'inconsistent row', 'rho, S are {!r}, {!r}, the species give {!r}, {!r}'.format(row['rho'], row['S'], rho, ent))
            continue
        prev = {c: float(d[c][i - 1]) for c in d}
        w.count('temperature_rose', int(row['T'] > prev['T']))
        want = prev['x'] * (1. + spec['dy']) if log else prev['x'] + spec['dx'] * MeV
        if rel(row['x'], want) > 1e-12:
            fail(i, 'wrong step', 'x went from {!r} to {!r} instead of {!r}'.format(prev['x'], row['x'], want))
        if not row['t'] > prev['t']:
            fail(i, 'time does not grow', '{!r} after {!r}'.format(row['t'], prev['t']))
        if i not in seen:
            fail(i, 'step not seen', 'no monitor call for this row')
            continue
        rho, ent, T, a, frac = seen[i]
        if rel(row['rho'], rho) > 1e-11:
            fail(i, 'inconsistent row', 'rho is {!r}, the species give {!r}'.format(row['rho'], rho))
        if rel(row['S'], ent) > 1e-11 and not full:
            fail(i, 'inconsistent row', 'S is {!r}, the species give {!r}'.format(row['S'], ent))
        if rel(row['fraction'], frac) > 1e-11:
            fail(i, 'inconsistent row', 'fraction is {!r}, it was {!r}'.format(row['fraction'], frac))
        H = math.sqrt(8. / 3. * math.pi * rho) / M_P
        dt = (1. - prev['a'] / row['a']) / H
        if abs(row['t'] - prev['t'] - dt) > 1e-9 * dt + 1e-13 * row['t']:
            fail(i, 'wrong time', 't grew by {!r}, the Friedmann equation gives {!r}'.format(row['t'] - prev['t'], dt))
        g = math.pi**2 / 15. * prev['T']**4
        neff = (rho - g) / (7. / 8. * math.pi**2 / 15. * (prev['T'] / 1.401)**4)
        if abs(row['N_eff'] - neff) > 1e-8 * max(1., abs(neff)):
            fail(i, 'inconsistent row', 'N_eff is {!r} instead of {!r}'.format(row['N_eff'], neff))
    done = 0
    for k, Tf in ends:
        # within this segment, only its last row may be at or below the temperature asked for
        for i in range(done, k - 1):
            if d['T'][i] <= Tf:
                fail(i, 'stopped late', 'T is {!r} MeV, {!r} was asked for'.format(d['T'][i] / MeV, Tf / MeV))
        if not d['T'][k - 1] <= Tf:
            fail(k - 1, 'stopped early', 'T is {!r} MeV, {!r} was asked for'.format(d['T'][k - 1] / MeV, Tf / MeV))
        done = k - 1 if d['T'][k - 1] > Tf else k
    w.count('steps', n - 1)
    w.count('linear_step', int(not log))
    w.count('simulated_ms', int(1e3 * float(d['t'][-1] - d['t'][0]) / SECOND))
    w.count('nontrivial', int(n > 3))
    w.digest = scen.digest(s.fingerprint())
    return bad

