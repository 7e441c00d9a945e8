"""Failures inside the compiled integration reach the caller as Python exceptions."""
from dst import native, scen
from dst.props import integrals as I
from dst.props.c11 import tally
from dst.props.common import violation, arm_clock

RUNS = {'quick': 900, 'thorough': 20000}
PROFILES = ['small']
INTEGRALS = 'native'
RULE = ('one run = a seeded sequence of calls of the compiled collision integrals of one or two reactions by simulated thread teams, where a seeded workspace '
        'allocation, operator new, quadrature call (with a seeded error code) or integrand value fails, or a momentum lies outside the grid; each call has to '
        'raise a Python exception, to leave no workspace behind, and to leave the following calls correct; one run in ten lets the failure happen inside a '
        'step of a whole universe; non-trivial: the planned failure happened; distinct by schedule trace and fault')
MUST_REACH = ['workspace_failures', 'allocation_failures', 'quadrature_failures', 'nan_values', 'momenta_outside', 'clean_calls_compared', 'universe_runs']
REAL = ['interactions/four_particle/cpp (integral.cpp, Ds.cpp)', 'interactions/three_particle/cpp (integral.cpp)',
        'for whole universes: evolution, particles, common, interactions, library']
STUB = ['libgomp (seeded scheduler over real threads, one at a time)', 'GSL quadrature (own adaptive Gauss-Kronrod)', 'pybind11 (minimal binding layer)']
ASSUMPTIONS = ['an integrand value of NaN may be returned as NaN: the Python layer deals with it (C10); it may not reach other momenta',
               'failures of the memory allocator outside the parallel region are not injected']
CODES = [5, 8, 11, 14, 18, 21, 22]


def make_plan(rng, tier):
    if rng.random() < .1:
        from dst.props import c11
        while True:
            plan = c11.make_plan(rng, tier)
            if 'universe' in plan:
                break
        plan['fault'] = random_fault(rng)
        if plan['fault'][0] in ('outside', 'nan', 'none'):
            plan['fault'][0] = 'qag'
        return plan
    reactions = [I.random_reaction(rng) for _ in range(rng.choice([1, 1, 2]))]
    calls = []
    for _ in range(rng.randint(2, 5)):
        r = rng.randrange(len(reactions))
        sch = I.random_schedule(rng)
        if rng.random() < .2:
            sch['threads'] = 1
        calls.append({'reaction': r, 'ps': I.random_momenta(rng, reactions[r], 12), 'kind': rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]),
                      'schedule': sch, 'fault': random_fault(rng)})
    calls[-1]['fault'] = ['none', 0., 0, 1, 0]
    return {'reactions': reactions, 'ops': calls}


def random_fault(rng):
    """ kind, which of the calls of that kind (as a fraction), error code; number of quadratures failing in a row, what they leave """
    return [rng.choice(['ws', 'ws', 'new', 'qag', 'qag', 'nan', 'outside', 'none']), rng.choice([0., rng.random(), rng.random(), .999999]), rng.choice(CODES),
            rng.choice([1, 1, 1, 2, 3, 50]), rng.choice([0, 1, 1, 2, 3])]


def shrink(plan):
    from dst.props import c11
    return c11.shrink(plan)


def execute(plan, w):
    if 'universe' in plan:
        return universe(plan, w)
    bad, trace, happened = [], [], 0
    built, refs = {}, {}
    for c in plan['ops']:
        d, sch = plan['reactions'][c['reaction']], c['schedule']
        key = (c['reaction'], sch['mem_period'] > 0)
        if key not in built:
            built[key] = I.Call(d, key[1])
            refs[key] = I.Reference(built[key])
        ref, ps = refs[key], list(c['ps'])
        kind, frac, code, length, mode = c['fault']
        if kind == 'outside':
            # below the lowest momentum of the grid the distribution is not defined
            ps[int(frac * len(ps))] = d['grid'][0] - .25
        want = [ref.get(p, c['kind']) for p in ps]
        if any(x == 'error' for x, _ in want) and kind != 'outside':
            continue
        total = {k: sum(ref.stats[p, c['kind']][k] for p in ps) for k in ('ws_alloc', 'news', 'qag', 'evals')}
        nth = lambda k: 1 + int(frac * total[k]) if total[k] else 0
        native.rt.reset_handler()
        native.rt.configure(**sch)
        native.rt.faults(ws=nth('ws_alloc') if kind == 'ws' else 0, qag=nth('qag') if kind == 'qag' else 0, code=code,
                         new=nth('news') if kind == 'new' else 0, nan=nth('evals') if kind == 'nan' else 0,
                         qag_len=length, qag_mode=mode)
        try:
            got, err = built[key](ps, c['kind']), None
        except Exception as e:
            got, err = None, '{}: {}'.format(type(e).__name__, e)
        st = native.rt.stats()
        native.rt.disarm()
        tally(w, st)
        trace.append((st['trace'], kind, frac, st['faults'], got and [I.bits(v) for v in got], err))
        where = '{} {} kind {} team of {} {}, fault {} {}'.format(d['which'], d['type'], c['kind'], sch['threads'], I.POLICIES[sch['policy']], kind, st['faults'])
        live = st['ws_alloc'] - st['ws_free'] - (1 if kind == 'ws' and st['faults'] else 0)
        if live:
            bad.append(violation('workspaces left behind', '{}: {} of {} workspaces were not freed'.format(where, live, st['ws_alloc'])))
        if st['faults']:
            w.count({'ws': 'workspace_failures', 'new': 'allocation_failures', 'qag': 'quadrature_failures', 'nan': 'nan_values'}[kind])
            happened += 1
        failing = any(x == 'error' for x, _ in want)
        if kind == 'outside' and failing:
            w.count('momenta_outside')
            happened += 1
        if kind == 'new' and st['faults'] and err is None:
            # whoever asked for the memory may do without it, but then the result is the right one
            pass
        elif st['faults'] and kind in ('ws', 'qag') and not failing and err is None:
            # a failure may be made good, and then the values are the right ones
            w.count('recovered')
        elif (st['faults'] and kind in ('ws', 'qag')) or failing:
            if err is None:
                bad.append(violation('failure not reported', '{}: the call returned {} values'.format(where, len(got))))
            continue
        if err is not None:
            if kind in ('nan', 'new') and st['faults']:
                continue
            bad.append(violation('failure out of nothing', '{}: {}'.format(where, err)))
            continue
        if len(got) != len(ps):
            bad.append(violation('length', '{}: {} values for {} momenta'.format(where, len(got), len(ps))))
            continue
        scale = max([abs(v) for _, v in want if v == v] + [0.])
        wrong = [(p, v, g) for p, (_, v), g in zip(ps, want, got) if not I.close(v, g, scale)]
        w.count('clean_calls_compared')
        if len(wrong) > (1 if kind == 'nan' and st['faults'] else 0):
            bad.append(violation('failed value returned' if st['faults'] and kind in ('ws', 'qag') else 'wrong values',
                                 '{}: at p={} {!r}, correct is {!r}'.format(where, wrong[0][0], wrong[0][2], wrong[0][1])))
    w.count('nontrivial', int(happened > 0))
    w.digest = scen.digest(trace)
    return bad[:2]


def universe(plan, w):
    """ the failure shows as an exception of the step, not as a wrong history """
    spec, sch, (kind, frac, code, length, mode) = plan['universe'], plan['schedule'], plan['fault']
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    native.rt.reset_handler()
    native.rt.configure(seed=1, threads=1)
    s = scen.Setup(spec, world=w, log_rate=1e9)
    s.run(export=False)
    total, clean = native.rt.stats(), s.fingerprint()
    nth = lambda k: 1 + int(frac * total[k]) if total[k] else 0
    native.rt.reset_handler()
    native.rt.configure(**sch)
    native.rt.faults(ws=nth('ws_alloc') if kind == 'ws' else 0, qag=nth('qag') if kind == 'qag' else 0, code=code,
                     new=nth('news') if kind == 'new' else 0, qag_len=length, qag_mode=mode)
    s = scen.Setup(spec, world=w, log_rate=1e9)
    try:
        s.run(export=False)
        err = None
    except Exception as e:
        err = '{}: {}'.format(type(e).__name__, e)
    st = native.rt.stats()
    native.rt.disarm()
    tally(w, st)
    w.count('universe_runs')
    bad = []
    live = st['ws_alloc'] - st['ws_free'] - (1 if kind == 'ws' and st['faults'] else 0)
    if live:
        bad.append(violation('workspaces left behind', 'universe: {} of {} workspaces were not freed'.format(live, st['ws_alloc'])))
    if err is None:
        from dst.props.c11 import diff
        d = diff(clean, s.fingerprint())
        if d and not bad:
            bad.append(violation('wrong values', 'universe: ' + d))
    else:
        if not st['faults']:
            bad.append(violation('failure out of nothing', 'universe: ' + err))
        # what was recorded before the failure is right
        h, g = clean['history'], s.fingerprint()['history']
        for c in h:
            if g[c] != h[c][:len(g[c])]:
                x = [float.fromhex(v) for v in g[c]]
                y = [float.fromhex(v) for v in h[c][:len(x)]]
                if len(x) != len(y) or not all(I.close(p, q, max(map(abs, y))) for p, q in zip(x, y)):
                    bad.append(violation('wrong values', 'universe: column {} recorded before the failure is wrong'.format(c)))
                    break
    w.count('nontrivial', int(st['faults'] > 0))
    w.digest = scen.digest([st['trace'], kind, frac, err, s.fingerprint()])
    return bad[:2]
