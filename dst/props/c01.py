"""Results do not depend on the clock, the logging or repetition."""
import os

from dst import scen, stub_integral
from dst.props.common import rand_clock, arm_clock, read, violation

RUNS = {'quick': 800, 'thorough': 16000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [5, 1]
RULE = ('one run = one seeded physical setup computed 2-4 times in one process: first alone in a process of its own under a plain clock without a folder, then under other '
        'clocks (stalls, jumps both ways, frozen), logging rates, folder names and heap layouts, with unrelated, nearly equal and failing computations '
        'before and in between; part of the runs are repeated in a second process with another string hash seed; non-trivial: the setup made at least 3 steps and at least two computations were compared; distinct by the digest of the history')
ASSUMPTIONS = ['bitwise comparison within one build of numpy/scipy on one machine']
OTHER_HASHSEED_RUNS = {'quick': 150, 'thorough': 1500}
MUST_REACH = ['variants', 'clock_jumps', 'noise_runs', 'noise_failed']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(3, 12), sterile=.15, decay=.12, dust=True)
    if rng.random() < .1:
        spec['T0'], spec['kawano'] = 30., False
        if spec['mode'] == 'log':
            spec['T1'] = spec['T0'] * (1 + spec['dy']) ** (-(spec['steps'] - .5))
        else:
            spec['dx'] = .05 / 30.
            spec['T1'] = 20.
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .5:
            if rng.random() < .6:
                noise = scen.sibling(rng, spec)
            else:
                noise = scen.random_spec(rng, steps=(1, 5), lin=False, env=False)
                noise['mode'] = spec['mode']
                if spec['mode'] == 'lin':
                    noise['dx'] = .05 / noise['T0']
            noise['env'] = spec['env']
            ops.append({'noise': noise, 'fail_at': rng.choice([0, 0, 1, 2, 7])})
        ops.append({'clock': rand_clock(rng), 'rate': rng.choice([0, 1e-3, .5, 2, 1e9]),
                    'folder': rng.choice([None, 'out', 'a b', 'ünï', 'deep/er/folder', '2017-01-01 12:00:00', 'x' * 100]),
                    'ballast': rng.choice([0, 1, 7, 64, 333]), 'export_freq': rng.choice([1, 2, 3, 100])})
    return {'spec': spec, 'ops': ops}


class Injected(Exception):
    pass


def compute(w, spec, folder=None, rate=None, export_freq=None):
    s = scen.Setup(dict(spec, export_freq=export_freq), folder=folder, log_rate=rate, world=w)
    scen.stable(s, lambda: s.run(export=folder is not None))
    return s


def execute(plan, w):
    bad = []
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    # the reference comes from a process that has computed nothing else
    reference = w.alone(lambda: compute(w, plan['spec'], rate=0).fingerprint())
    files = None
    compared = 0
    for n, op in enumerate(plan['ops']):
        if 'noise' in op:
            w.count('noise_runs')
            stub_integral.ctl.reset()
            if op['fail_at']:
                def hook(k, ps, reaction, stepsize, kind, values):
                    if k == op['fail_at']:
                        w.count('noise_failed')
                        raise Injected()
                    return values
                stub_integral.ctl.hook = hook
            try:
                compute(w, op['noise'])
            except (Injected, scen.Unstable):
                pass
            stub_integral.ctl.reset()
            continue
        arm_clock(w, op['clock'])
        if any(op['clock']['jumps']):
            w.count('clock_jumps')
        ballast = [object() for _ in range(op['ballast'])]
        folder = w.path(str(n), op['folder']) if op['folder'] else None
        s = compute(w, plan['spec'], folder, op['rate'], op['export_freq'])
        w.count('variants')
        compared += 1
        d = scen.differ(reference, s.fingerprint())
        if d:
            bad.append(violation('result differs', 'computation {} (clock {}, rate {}, folder {!r}) differs: {}'.format(
                n, op['clock']['kind'], op['rate'], op['folder'], d)))
            break
        if folder:
            got = {f: read(os.path.join(folder, f)) for f in ('evolution.txt', 'kawano.txt', 's4.dat')}
            if files is None:
                files = got
            else:
                for f in got:
                    if got[f] != files[f]:
                        bad.append(violation('exported table differs', '{} of computation {} is not that of an earlier one'.format(f, n)))
        del ballast
    steps = len(reference['history']['x']) - 1
    w.count('steps', steps * (compared + 1))
    w.count('nontrivial', int(steps >= 3 and compared >= 1))
    w.digest = scen.digest(reference)
    return bad
