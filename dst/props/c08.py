"""A step that fails is reported, records nothing and can be retried."""
import errno

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, rand_clock, violation

RUNS = {'quick': 900, 'thorough': 16000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [5, 1]
RULE = ('one run = one seeded setup with collisions computed once undisturbed and once with 1-6 failing collision integrals (chosen call, repeated, '
        'any exception type), each followed by a retry of the whole or a part of the run; non-trivial: a failure was injected; distinct by the history and '
        'the calls that failed')
MUST_REACH = ['failures', 'failed_first_step', 'failed_in_decoupling_step', 'repeated', 'three_particle']
KINDS = ['RuntimeError', 'MemoryError', 'FloatingPointError', 'ZeroDivisionError', 'ValueError', 'OSError', 'KeyError', 'IndexError', 'TypeError',
         'AttributeError', 'ArithmeticError', 'AssertionError', 'Injected']


class Injected(Exception):
    pass


def make(kind):
    if kind == 'Injected':
        return Injected('injected')
    if kind == 'OSError':
        return OSError(errno.ENOMEM, 'injected')
    import builtins
    return getattr(builtins, kind)('injected')


def make_plan(rng, tier):
    for _ in range(50):
        spec = scen.random_spec(rng, steps=(3, 12), sterile=.15, decay=.2, dust=True)
        if spec['interactions']:
            break
    faults = []
    at = 0
    for _ in range(rng.randint(1, 6)):
        if rng.random() < .5:
            # a fraction of the calls of the undisturbed run
            faults.append([rng.random(), rng.choice(KINDS)])
        else:
            at += rng.choice([1, 1, 2, 3, rng.randint(1, 40)])
            faults.append([at, rng.choice(KINDS)])
    cut = rng.random() if rng.random() < .3 else None
    return {'spec': spec, 'faults': faults, 'cut': cut, 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9]),
            'folder': rng.random() < .2, 'options': {'precision': rng.choice([8, 5, 17]), 'linewidth': rng.choice([75, 120])}}


PARAMS = ('x', 'a', 'T', 'aT', 't', 'H', 'rho', 'S', 'N_eff', 'dx', 'h')


def state(s):
    u = s.u
    return {k: float(getattr(u.params, k)).hex() for k in PARAMS if getattr(u.params, k, None) is not None}


def execute(plan, w):
    bad = []
    arm_clock(w, plan['clock'])
    stub_integral.ctl.reset()
    ref = scen.Setup(plan['spec'], world=w, log_rate=1e9)
    scen.stable(ref, lambda: ref.run(export=False))
    want = ref.fingerprint()
    total = stub_integral.ctl.calls
    stub_integral.ctl.reset()
    numpy.set_printoptions(**plan['options'])
    s = scen.Setup(plan['spec'], folder=w.path('out') if plan['folder'] else None, log_rate=plan['rate'], world=w)
    faults = {n if isinstance(n, int) else 1 + int(n * total): k for n, k in plan['faults']}
    box = {'raised': None, 'before': None, 'rows': None}
    # the state at the beginning of a step: rows and parameters change only when a step completes
    orig = s.u.make_step

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in faults:
            e = make(faults.pop(n))
            box.update(raised=e, before=state(s), rows=(len(s.u.data), len(s.u.kawano_data) if s.spec['kawano'] else 0),
                       fp=s.fingerprint()['history'], options=opts)
            w.count('failures')
            w.count('failed_first_step', int(len(s.u.data) == 1))
            w.count('three_particle', int(len(reaction) == 3))
            w.count('failed_in_decoupling_step', int(any(p.oldeq and not p.in_equilibrium for p in s.u.particles)))
            w.count('repeated', int(len(s.u.data) == box.get('last')))
            box['last'] = len(s.u.data)
            raise e
        return values
    stub_integral.ctl.hook = hook
    opts = numpy.get_printoptions()
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    todo = ([T1 + (T0 - T1) * plan['cut']] if plan['cut'] is not None else []) + [T1]
    calls = []
    guard = 0
    while todo:
        guard += 1
        if guard > 100:
            bad.append(violation('no progress', 'still failing after {} attempts'.format(guard)))
            break
        box['raised'] = None
        try:
            s.run(todo[0], export=plan['folder'] and len(todo) == 1, init_time=len(s.u.data) == 0)
        except Exception as e:
            seen = e
            chain = []
            while seen is not None and len(chain) < 10:
                chain.append(seen)
                seen = seen.__cause__ or seen.__context__
            if box['raised'] is None:
                raise
            if not any(c is box['raised'] for c in chain):
                bad.append(violation('other exception', 'the integral raised {!r}, the caller got {!r}'.format(box['raised'], e)))
                break
            rows = (len(s.u.data), len(s.u.kawano_data) if s.spec['kawano'] else 0)
            if rows != box['rows']:
                bad.append(violation('row recorded', 'the failed step changed the number of rows from {} to {}'.format(box['rows'], rows)))
                break
            now = state(s)
            if now != box['before']:
                bad.append(violation('state moved', 'the failed step changed {}'.format([k for k in now if now[k] != box['before'].get(k)])))
                break
            if s.fingerprint()['history'] != box['fp']:
                bad.append(violation('history changed', 'the failed step changed recorded rows'))
                break
            if numpy.get_printoptions() != opts:
                bad.append(violation('print options', 'numpy print options are not restored after the failure'))
                break
            calls.append(stub_integral.ctl.calls)
            continue
        if box['raised'] is not None:
            bad.append(violation('failure swallowed', '{!r} from a collision integral did not reach the caller'.format(box['raised'])))
            break
        if numpy.get_printoptions() != opts:
            bad.append(violation('print options', 'numpy print options differ after the run'))
            break
        todo.pop(0)
    if not bad:
        d = scen.differ(want, s.fingerprint())
        if d:
            bad.append(violation('retry differs', 'after failures in calls {}: {}'.format(calls, d)))
    w.count('steps', len(s.u.data) - 1)
    w.count('nontrivial', int(bool(calls)))
    w.digest = scen.digest([want, calls])
    return bad
