"""Distribution functions stay finite and non-negative; free ones are frozen."""
import sys

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, violation

RUNS = {'quick': 1500, 'thorough': 16000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [6, 1]
RULE = ('one run = one seeded setup whose collision integrals answer, in seeded calls and at seeded momenta, with NaN, infinities, huge, tiny, negative or '
        'ordinary values; all distribution functions are inspected in every step and in the recorded tables; species without collisions are compared with '
        'what they decoupled with; non-trivial: some answer was replaced and some species was out of equilibrium; distinct by history and injected values')
MUST_REACH = ['nan_values', 'inf_values', 'huge_values', 'negative_values', 'nan_checked', 'frozen_checked', 'refused', 'clipped']


def make_plan(rng, tier):
    for _ in range(60):
        spec = scen.random_spec(rng, steps=(3, 14), sterile=.2, decay=.12, dust=True)
        if any(p[0].startswith('nu') or p[0] == 'heavy' for p in spec['particles']):
            break
    spec['monitor'] = True
    # more species out of equilibrium
    for p in spec['particles']:
        if (p[0].startswith('nu') or p[0] in ('heavy', 'sterile')) and rng.random() < .6:
            p[1]['dec'] = spec['T0'] * rng.choice([2., 1.0000001, .9])
    if rng.random() < .35:
        spec.pop('decay', None)
        spec['interactions'] = []
        spec.pop('osc', None)
    ops = []
    kinds = rng.choice([['nan'], ['nan', 'nan_all'], ['negative'], ['huge'], ['inf'], ['nan', 'negative'], ['nan', 'inf', 'huge', 'negative', 'tiny', 'zero']])
    for _ in range(rng.randint(1, 12)):
        ops.append([rng.choice([rng.randint(1, 12), rng.randint(1, 200)]), rng.choice(kinds), rng.choice([1, 1, 3, 1000]), rng.randrange(1 << 30)])
    return {'spec': spec, 'ops': ops}


def culprit():
    """ the species whose collision integral is being computed """
    f = sys._getframe(2)
    while f is not None:
        me = f.f_locals.get('self')
        p = getattr(me, 'particle', None)
        if p is not None and hasattr(p, '_distribution'):
            return p
        f = f.f_back
    return None


def execute(plan, w):
    import random
    bad = []
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    ops = {o[0]: o for o in plan['ops']}
    s = scen.Setup(plan['spec'], world=w, log_rate=1e9)
    nans = {}            # species -> (distribution before, set of grid positions with NaN)
    wild = [0]

    def hook(n, ps, reaction, stepsize, kind, values):
        values = numpy.array(values, dtype=float)
        if n not in ops or not len(values):
            return values
        _, what, many, seed = ops[n]
        rng = random.Random(seed)
        pos = list(range(len(values))) if what == 'nan_all' else sorted({rng.randrange(len(values)) for _ in range(min(many, len(values)))})
        scale = 1. / max(abs(numpy.max(numpy.abs(stepsize))), 1e-300)
        for i in pos:
            if what in ('nan', 'nan_all'):
                values[i] = numpy.nan
                w.count('nan_values')
            elif what == 'inf':
                values[i] = rng.choice([numpy.inf, -numpy.inf])
                w.count('inf_values')
            elif what == 'huge':
                values[i] = rng.choice([1., -1.]) * scale * rng.choice([10., 1e6, 1e100, 1e250])
                w.count('huge_values')
            elif what == 'negative':
                values[i] = -scale * rng.choice([1e-3, .1, 1., 5.])
                w.count('negative_values')
            elif what == 'tiny':
                values[i] = rng.choice([1e-300, 5e-324, -5e-324])
            else:
                values[i] = rng.choice([0., -0.])
        if what not in ('nan', 'nan_all'):
            wild[0] += 1
        if what in ('nan', 'nan_all', 'inf'):
            p = culprit()
            if p is not None and not p.in_equilibrium:
                grid = p.grid.TEMPLATE / p.params.aT
                where = {int(numpy.argmin(numpy.abs(grid - ps[i]))) for i in pos if numpy.min(numpy.abs(grid - ps[i])) <= 1e-12 * max(ps[i], 1e-30)}
                old, have = nans.get(p, (p._distribution.copy(), set()))
                nans[p] = (old, have | where)
        return values
    stub_integral.ctl.hook = hook
    frozen = {}          # species without collisions -> (distribution, comoving number)
    clipped = [0]
    noncolliding = not plan['spec']['interactions'] and not plan['spec'].get('decay') and not plan['spec'].get('osc')

    def monitor(u):
        for name in s.order:
            p = s.p[name]
            if p.in_equilibrium:
                continue
            f = p._distribution
            if not numpy.all(numpy.isfinite(f)):
                bad.append(violation('not finite', '{} in step {}: {}'.format(name, len(u.data), f[~numpy.isfinite(f)][:3])))
            elif not numpy.all(f >= 0):
                bad.append(violation('negative', '{} in step {}: {}'.format(name, len(u.data), f[f < 0][:3])))
            if numpy.any(f == 0):
                clipped[0] += 1
            rec = p.data['distribution'][-1]
            if not numpy.array_equal(numpy.asarray(rec), f):
                bad.append(violation('recorded distribution differs', '{} in step {}: the last recorded distribution is not the present one'.format(name, len(u.data))))
            # an unstable species gets a new function in every step
            if p in nans and not plan['spec'].get('osc') and not hasattr(p, 'fast_decay'):
                old, where = nans[p]
                w.count('nan_checked', len(where))
                changed = [i for i in sorted(where) if f[i] != old[i]]
                if changed:
                    bad.append(violation('a value that is no number changed the function', '{} in step {}: position {}: {!r} became {!r}'.format(
                        name, len(u.data), changed[0], old[changed[0]], f[changed[0]])))
            if noncolliding and not hasattr(p, "fast_decay"):
                number = p.density * u.params.a ** 3
                if name in frozen:
                    w.count('frozen_checked')
                    g, n0 = frozen[name]
                    if not numpy.array_equal(f, g):
                        i = int(numpy.argmax(f != g))
                        bad.append(violation('free species changed', '{} in step {}: position {}: {!r} became {!r}'.format(name, len(u.data), i, g[i], f[i])))
                    if abs(number - n0) > 1e-10 * abs(n0):
                        bad.append(violation('comoving number changed', '{} in step {}: {!r} became {!r}'.format(name, len(u.data), n0, number)))
                else:
                    frozen[name] = (f.copy(), number)
        nans.clear()
        if bad or len(u.data) > 40:
            raise Stop()
    s.monitors.append(monitor)
    why = None
    try:
        s.run(export=False)
    except Stop:
        pass
    except SystemExit as e:
        why = 'exit {}'.format(e.code)
        if e.code in (0, None):
            bad.append(violation('silent exit', 'the program ended with status {}'.format(e.code)))
    except Exception as e:
        why = repr(e)[:60]
        if isinstance(e, (AttributeError, NameError, ImportError, TypeError, KeyError)):
            raise
    if why:
        w.count('refused')
        if not wild[0]:
            bad.append(violation('NaN not survived', 'only NaN values were returned, and the run ended with ' + why))
    w.count('clipped', clipped[0])
    w.count('steps', len(s.u.data) - 1)
    out = any(not p.in_equilibrium for p in s.p.values())
    w.count('nontrivial', int(out and (stub_integral.ctl.calls > 0 or noncolliding)))
    w.digest = scen.digest([s.fingerprint(), plan['ops'], why])
    return bad[:3]


class Stop(BaseException):
    pass
