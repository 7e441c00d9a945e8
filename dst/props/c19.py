"""Decoupling happens once, in order, and is never undone."""
import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, rand_clock, violation

RUNS = {'quick': 1500, 'thorough': 25000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [5, 1]
RULE = ('one run = one seeded setup in which 1-5 species decouple at chosen temperatures (also several in one step, at the start, or never) while the collision '
        'integrals are answered by the simulator so that the plasma is heated or cooled, steps fail around the decouplings and are retried, the run is cut into segments '
        'and another universe is stepped in between; after every step and every failure each species is compared with a model of two states; '
        'non-trivial: a species decoupled within the run; distinct by the decoupling steps and the temperature history')
MUST_REACH = ['decouplings', 'reheated', 'reheated_above', 'failures_at_decoupling', 'segments', 'from_the_start', 'simultaneous', 'checked_start']


def make_plan(rng, tier):
    for _ in range(50):
        spec = scen.random_spec(rng, steps=(4, 16), sterile=.1, decay=.1, dust=True)
        if rng.random() < .7 and not spec['interactions']:
            continue
        break
    T0, n = spec['T0'], spec['steps']
    step = spec.get('dy') or spec['dx'] * T0
    common = T0 * (1 + step) ** (-rng.uniform(.2, n))
    for kind, d in spec['particles']:
        if kind in ('photon', 'electron'):
            continue
        r = rng.random()
        if r < .6:
            d['dec'] = T0 * (1 + step) ** (-rng.uniform(.1, n))
        elif r < .75:
            d['dec'] = common
        elif r < .82:
            d['dec'] = T0
        elif r < .88:
            d['dec'] = T0 * 3
        else:
            d['dec'] = T0 * .001
    heat = []
    for _ in range(rng.choice([0, 1, 1, 3])):
        heat.append([rng.randrange(1, n + 1), rng.choice([-1, -1, -1, 1]) * rng.choice([.3, 1., 3., 10.]), rng.randint(1, 3)])
    cuts = sorted((rng.random() for _ in range(rng.choice([0, 0, 1, 2]))), reverse=True)
    faults = [rng.choice(['dec', 'dec', rng.randrange(1, 150)]) for _ in range(rng.choice([0, 0, 1, 2, 4]))] if spec['interactions'] else []
    spec['monitor'] = 1
    return {'spec': spec, 'heat': heat, 'cuts': cuts, 'faults': faults, 'clock': rand_clock(rng), 'other': rng.random() < .2, 'limit': 4 * n + 30}


class Injected(Exception):
    pass


class TooLong(Exception):
    pass


def execute(plan, w):
    bad = []
    spec = plan['spec']
    arm_clock(w, plan['clock'])
    stub_integral.ctl.reset()
    s = scen.Setup(spec, world=w, log_rate=1e9)
    u = s.u
    MeV = s.UNITS.MeV
    model = {}
    for n, (kind, d) in zip([x for x in s.order], spec['particles']):
        p = s.p[n]
        D = p.decoupling_temperature
        if kind in ('photon', 'electron'):
            D = 0.
        if not p.thermal_dyn:
            D = numpy.inf
        model[n] = {'D': D, 'eq': u.params.T > D, 'aT': u.params.aT, 'since': 0 if not u.params.T > D else None}
        w.count('from_the_start', int(not model[n]['eq']))
    log = []
    calls = {'step': None}
    faults = list(plan['faults'])

    def fail(cls, text):
        if len(bad) < 3:
            bad.append(violation(cls, text))

    def check(where, step):
        """ advance the model to the plasma state of this step and compare """
        T, a, aT = u.params.T, u.params.a, u.params.aT
        for n in s.order:
            m, p = model[n], s.p[n]
            if m['eq']:
                m['aT'] = aT
                if not T > m['D']:
                    m['eq'], m['since'] = False, step
                    log.append((n, step))
            own = m['aT'] / a
            flag = bool(p.in_equilibrium)
            if flag != m['eq']:
                fail('equilibrium', '{}: {} is {}in equilibrium; plasma at {:.9g} MeV, decoupling at {:.9g} MeV, {}'.format(
                    where, n, '' if flag else 'not ', T / MeV, m['D'] / MeV, 'decoupled in step {}'.format(m['since']) if m['since'] is not None else 'never decoupled'))
                return False
            if not p.thermal_dyn:
                continue
            if not abs(p.aT - m['aT']) <= 1e-12 * m['aT'] or not abs(p.T - own) <= 1e-12 * own:
                fail('own temperature', '{}: {} has T = {:.12g} MeV, aT = {:.12g} where T = {:.12g}, aT = {:.12g} was expected ({})'.format(
                    where, n, p.T / MeV, p.aT / MeV, own / MeV, m['aT'] / MeV, 'equilibrium' if m['eq'] else 'decoupled in step {}'.format(m['since'])))
                return False
        return True

    def monitor(universe):
        step = u.step
        calls['step'] = step
        if step > plan['limit']:
            raise TooLong()
        if not check('step {}'.format(step), step):
            raise TooLong()
        T = u.params.T
        if len(u.data) > 1 and T > u.data['T'][-2]:
            w.count('reheated')
            w.count('reheated_above', int(any(m['since'] and T > m['D'] for m in model.values())))
        for n in s.order:
            m, p = model[n], s.p[n]
            if m['since'] == step and not m['eq'] and not hasattr(p, 'fast_decay'):
                y = numpy.array(p.grid.TEMPLATE, dtype=float)
                E = numpy.sqrt(y**2 + (p.mass * u.params.a)**2)
                with numpy.errstate(all='ignore'):
                    feq = 1. / (numpy.exp(E / m['aT']) + p.eta)
                f = numpy.array(p._distribution, dtype=float)
                before = f - numpy.array(p.collision_integral, dtype=float) * u.params.h
                C = numpy.abs(numpy.array(p.collision_integral, dtype=float) * u.params.h)
                ok = (f > 0) & numpy.isfinite(feq) & numpy.isfinite(before)
                w.count('checked_start')
                err = numpy.abs(before - feq) > 1e-9 * (feq + C)
                if numpy.any(err & ok):
                    i = int(numpy.argmax(err & ok))
                    fail('starting distribution', '{} decouples in step {} at {:.6g} MeV; at momentum {:.6g} it starts from {:.12g} instead of the equilibrium value {:.12g}'.format(
                        n, step, u.params.T / MeV, y[i] / MeV, before[i], feq[i]))
    s.monitors.append(monitor)

    def hook(n, ps, reaction, stepsize, kind, values):
        step = u.step
        for f in faults:
            if f == n or (f == 'dec' and any(m["eq"] and not u.params.T > m["D"] for m in model.values())):
                faults.remove(f)
                w.count('failures')
                w.count('failures_at_decoupling', int(f == 'dec'))
                raise Injected()
        for at, size, length in plan['heat']:
            if at <= step < at + length:
                specie = reaction[0].specie
                f = numpy.array(specie.grid.distribution, dtype=float)
                g = numpy.array(specie.grid.grid, dtype=float)
                v = numpy.interp(numpy.asarray(ps, dtype=float), g, f)
                return [float(x) for x in numpy.asarray(values) + size * v / numpy.max(numpy.abs(stepsize)) * .1]
        return values
    stub_integral.ctl.hook = hook
    other = None
    T0, T1 = spec['T0'], spec['T1']
    todo = [T1 + (T0 - T1) * c for c in plan['cuts']] + [T1]
    try:
        while todo and not bad:
            try:
                s.run(todo[0], export=False, init_time=len(u.data) == 0)
            except Injected:
                check('after the failure in step {}'.format(u.step), u.step)
                continue
            except AssertionError:
                break             # infinite collision values are refused
            todo.pop(0)
            w.count('segments')
            if plan['other'] and todo:
                stub_integral.ctl.hook = None
                if other is None:
                    sp = {'T0': T0, 'T1': T1, 'mode': spec['mode'], 'env': spec['env'], 'kawano': False, 'particles': [['photon', {}], ['nu_e', {'dec': T0 * .97}]],
                          'dy': .05, 'dx': .05 / T0, 'interactions': ['weak'], 'steps': 3}
                    other = scen.Setup(sp, world=w, log_rate=1e9)
                other.step(first=len(other.u.data) == 0, n=2)
                stub_integral.ctl.hook = hook
                s.physics()
    except (TooLong, SystemExit):
        w.count('stopped_early')
    w.count('decouplings', len(log))
    steps = [x[1] for x in log]
    w.count('simultaneous', int(len(set(steps)) < len(steps)))
    w.count('steps', len(u.data))
    w.count('nontrivial', int(bool(log)))
    w.digest = scen.digest([log, scen.hx({'T': u.data['T']})])
    return bad
