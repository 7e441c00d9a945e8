"""The compiled collision integrals give the same values under every team and schedule."""
from dst import native, scen
from dst.props import integrals as I
from dst.props.common import violation, arm_clock

RUNS = {'quick': 700, 'thorough': 12000}
PROFILES = ['small']
INTEGRALS = 'native'
RULE = ('one run = one to three seeded reactions (two to two, decays, creations, three-particle) whose collision integrals, compiled from the repository '
        'against a simulated OpenMP and GSL runtime, are called several times with seeded sets and orders of momenta, team sizes, policies and preemption '
        'points (every memory access in the instrumented build), compared with every momentum computed alone by one thread; one run in nine evolves a '
        'whole universe with these integrals twice, by one thread and by a scheduled team; non-trivial: at least one preemption; distinct by schedule trace')
MUST_REACH = ['switches', 'memory_access_preemption_runs', 'universe_runs', 'momenta_compared', 'three_particle_calls', 'four_particle_calls']
REAL = ['interactions/four_particle/cpp (integral.cpp, Ds.cpp)', 'interactions/three_particle/cpp (integral.cpp)',
        'for whole universes: evolution, particles, common, interactions, library']
STUB = ['libgomp (seeded scheduler over real threads, one at a time)', 'GSL quadrature (own adaptive Gauss-Kronrod)', 'pybind11 (minimal binding layer)']
ASSUMPTIONS = ['sequentially consistent memory: one thread runs at a time, so effects of weaker hardware ordering are not explored',
               'the instrumented build is compiled with -O2 -fsanitize=thread, the plain one with the options of the Makefile']


def make_plan(rng, tier):
    if rng.random() < .11:
        spec = scen.random_spec(rng, kawano=False, steps=(2, 3), heavy=True, osc=False, lin=False)
        spec['samples'], spec['pmax'] = 9, 10.
        spec.pop('grid', None)
        # later than that weak reactions are slow enough for the tolerance to be reached at rest, too
        T0 = rng.choice([1., 2., 3.])
        spec['T1'] *= T0 / spec['T0']
        for p in spec['particles']:
            if 'dec' in p[1]:
                p[1]['dec'] *= T0 / spec['T0']
        spec['T0'] = T0
        spec['interactions'] = sorted(set(spec['interactions']) - {'weak'}) + ['weak']
        if not any(p[0].startswith('nu') for p in spec['particles']):
            spec['particles'].append(['nu_e', {'dec': spec['T0'] * 1.5}])
        # few species, all out of equilibrium
        nus = [p for p in spec['particles'] if p[0].startswith('nu')][:2]
        spec['particles'] = [p for p in spec['particles'] if not p[0].startswith('nu')] + nus
        if len(nus) < 2:
            spec['interactions'] = ['weak']
            spec['particles'] = [p for p in spec['particles'] if p[0] != 'heavy']
        for p in nus:
            p[1]['dec'] = spec['T0'] * 1.5
        return {'universe': spec, 'schedule': dict(I.random_schedule(rng), mem_period=0)}
    reactions = [I.random_reaction(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    for _ in range(rng.randint(2, 5)):
        r = rng.randrange(len(reactions))
        calls.append({'reaction': r, 'ps': I.random_momenta(rng, reactions[r], 12), 'kind': rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]),
                      'schedule': I.random_schedule(rng)})
    return {'reactions': reactions, 'ops': calls}


def shrink(plan):
    import copy
    for i, c in enumerate(plan.get('ops', [])):
        for key, val in (('threads', 2), ('policy', 0), ('mem_period', 0)):
            if c['schedule'][key] not in (val,):
                p = copy.deepcopy(plan)
                p['ops'][i]['schedule'][key] = val
                yield p
        if len(c['ps']) > 1:
            for half in (c['ps'][:len(c['ps']) // 2], c['ps'][len(c['ps']) // 2:], c['ps'][1:], c['ps'][:-1]):
                if half and half != c['ps']:
                    p = copy.deepcopy(plan)
                    p['ops'][i]['ps'] = half
                    yield p


def tally(w, st):
    w.count('switches', st['switches'])
    w.count('yield_points', st['yields'])
    w.count('integrand_evaluations', st['evals'])
    w.count('parallel_regions', st['regions'])


def execute(plan, w):
    if 'universe' in plan:
        return universe(plan, w)
    bad, trace, switches = [], [], 0
    built, refs = {}, {}
    for c in plan['ops']:
        d, sch = plan['reactions'][c['reaction']], c['schedule']
        key = (c['reaction'], sch['mem_period'] > 0)
        if key not in built:
            built[key] = I.Call(d, key[1])
            refs[key] = I.Reference(built[key])
        ref = refs[key]
        want = [ref.get(p, c['kind']) for p in c['ps']]
        native.rt.reset_handler()
        native.rt.configure(**sch)
        try:
            got, err = built[key](c['ps'], c['kind']), None
        except Exception as e:
            got, err = None, '{}: {}'.format(type(e).__name__, e)
        st = native.rt.stats()
        tally(w, st)
        switches += st['switches']
        trace.append((st['trace'], st['yields'], got and [I.bits(v) for v in got], err))
        w.count(d['which'] + '_particle_calls')
        if sch['mem_period']:
            w.count('memory_access_preemption_runs')
        errors = sorted({v for what, v in want if what == 'error'})
        where = '{} {} kind {} team of {} {}'.format(d['which'], d['type'], c['kind'], sch['threads'], I.POLICIES[sch['policy']])
        if errors:
            w.count('error_calls')
            if err is None:
                bad.append(violation('failure lost', '{}: a momentum alone fails with {}, the call among others returns'.format(where, errors[0])))
            continue
        if err is not None:
            bad.append(violation('failure among others', '{}: {} though every momentum alone is fine'.format(where, err)))
            continue
        if len(got) != len(c['ps']):
            bad.append(violation('length', '{}: {} values for {} momenta'.format(where, len(got), len(c['ps']))))
            continue
        scale = max([abs(v) for _, v in want if v == v] + [0.])
        for p, (_, v), g in zip(c['ps'], want, got):
            w.count('momenta_compared')
            if not I.close(v, g, scale):
                bad.append(violation('value depends on the team', '{}: at p={} {!r}, alone {!r}'.format(where, p, g, v)))
                break
    native.rt.disarm()
    w.count('nontrivial', int(switches > 0))
    w.digest = scen.digest(trace)
    return bad[:2]


def universe(plan, w):
    spec, out, sts = plan['universe'], [], []
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    for sch in ({'seed': 1, 'threads': 1}, plan['schedule']):
        native.rt.reset_handler()
        native.rt.configure(**sch)
        s = scen.Setup(spec, world=w, log_rate=1e9)
        try:
            s.run(export=False)
            end = 'ok'
        except Exception as e:
            end = '{}: {}'.format(type(e).__name__, e)
        sts.append(native.rt.stats())
        fp = s.fingerprint()
        fp['end'] = {'end': [end]}
        out.append(fp)
    native.rt.disarm()
    tally(w, sts[1])
    w.count('universe_runs')
    w.count('nontrivial', int(sts[1]['switches'] > 0))
    w.digest = scen.digest([out[1], sts[1]['trace']])
    if out[0]['end'] != out[1]['end']:
        return [violation('universe depends on the team', 'one thread: {}; team: {}'.format(out[0]['end'], out[1]['end']))]
    d = diff(out[0], out[1])
    if d:
        return [violation('universe depends on the team', d)]
    if out[0]['end']['end'][0] != 'ok':
        w.count('universe_ended_early')
    return []


def diff(a, b):
    for part in ('history', 'distributions'):
        for k in a[part]:
            x, y = a[part][k], b[part][k]
            if len(x) != len(y):
                return '{}[{}]: {} values against {}'.format(part, k, len(x), len(y))
            x, y = [float.fromhex(v) for v in x], [float.fromhex(v) for v in y]
            scale = max([abs(v) for v in x if v == v] + [0.])
            for i, (p, q) in enumerate(zip(x, y)):
                if not I.close(p, q, scale):
                    return '{}[{}][{}]: {!r} with one thread, {!r} with the team'.format(part, k, i, p, q)
    return None
