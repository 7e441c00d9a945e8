"""KAWANO's failure is reported, costs no results and is never masked."""
import os

from dst import scen, world as W
from dst.props.common import Tables, arm_clock, rand_clock, read, violation

RUNS = {'quick': 3000, 'thorough': 16000}
RULE = ('one run = one seeded short run with KAWANO in a folder (or the runner alone on a folder with an input file), with 1-4 exports whose external '
        'program is missing, not executable, cannot be forked, is killed before or while writing, leaves no output, or succeeds at its own pace '
        'with several pieces of output, old output of earlier runs lying in the folder; non-trivial: at least one start; distinct by behaviours and texts')
MUST_REACH = ['missing', 'denied', 'nofork', 'killed_early', 'killed_late', 'no_output', 'ok', 'stale_output', 'direct']
FAILS = ['missing', 'denied', 'nofork', 'killed_early', 'killed_late', 'no_output']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, kawano=True, steps=(2, 6), interactions=False, heavy=False, osc=False)
    children = []
    for i in range(rng.randint(1, 4)):
        b = {'mode': rng.choice(['ok', 'ok', 'ok'] + FAILS), 'slice': rng.randrange(7), 'pieces': rng.randint(1, 5), 'signal': rng.choice([1, 2, 6, 9, 11, 15]),
             'code': rng.choice([0, 0, 0, 1, 2, 255]), 'stale': rng.random() < .5,
             'text': 'BEGIN-{:08x}\n'.format(rng.randrange(1 << 32)) + 'x 1.0 2.0\n' * rng.choice([0, 1, 7, 400]) + 'END-{:08x}'.format(rng.randrange(1 << 32))}
        if b['mode'] == 'killed_late':
            b['pieces'] = rng.randint(2, 5)
        children.append(b)
    return {'spec': spec, 'children': children, 'direct': rng.random() < .4, 'clock': rand_clock(rng), 'rate': rng.choice([0, 1e9]), 'freq': rng.choice([1, 3, 100])}


def execute(plan, w):
    import kawano
    bad = []
    arm_clock(w, plan['clock'])
    folder = w.path('out')
    out = os.path.join(folder, 'kawano_output.dat')
    s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    tables = Tables(s, folder)
    state = {'problem': None, 'spawned': 0}

    def spawned(popen, args, env):
        state['spawned'] += 1
        if not state['direct']:
            state['problem'] = tables.complete()
    w.on_spawn = spawned
    n = len(plan['children'])
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    stale = []
    for i, b in enumerate(plan['children']):
        state.update(problem=None, direct=plan['direct'] and i > 0)
        if b['stale']:
            text = 'STALE-{}-{}\n'.format(i, b['text'][6:14])
            with open(out, 'w') as f:
                f.write(text)
            stale.append(text.strip())
            w.count('stale_output')
        before = len(w.terminal.text())
        spawns = state['spawned']
        w.behaviours = [b]
        got, failed = None, None
        try:
            if state['direct']:
                w.count('direct')
                got = kawano.run(folder)
            else:
                s.run(T0 + (T1 - T0) * (i + 1) / n, export=True, init_time=i == 0)
        except W.HarnessError:
            raise
        except Exception as e:
            failed = e
        printed = w.terminal.text()[before:]
        w.count(b['mode'])
        how = 'the program ({}, code {}, slice {})'.format(b['mode'], b['code'], b['slice'])
        if state['spawned'] == spawns:
            bad.append(violation('not started', '{}: nothing was started ({!r})'.format(how, failed)))
            break
        if state['problem']:
            bad.append(violation('results at risk', '{}: when it is started, {}'.format(how, state['problem'])))
        for t in stale:
            if t in printed or (got is not None and t in got):
                bad.append(violation('stale output reported', '{}: output of an earlier run is reported'.format(how)))
        if b['mode'] in FAILS:
            if failed is None:
                bad.append(violation('failure masked', '{}: the caller was not told'.format(how)))
            if b['text'][:14] in printed:
                bad.append(violation('partial output reported', '{}'.format(how)))
        elif failed is None:
            if state['direct']:
                if got != b['text']:
                    bad.append(violation('wrong output', '{}: {} characters returned, {} written'.format(how, len(got or ''), len(b['text']))))
            elif b['text'] not in printed:
                bad.append(violation('wrong output', '{}: its output was not reported in full'.format(how)))
        elif b['code'] == 0:
            bad.append(violation('spurious failure', '{}: it succeeded, the caller got {!r}'.format(how, failed)))
        if not state['direct']:
            problem = tables.complete()
            if problem:
                bad.append(violation('results lost', '{}: afterwards {}'.format(how, problem)))
        if bad:
            break
    w.count('nontrivial', int(state['spawned'] > 0))
    w.count('steps', len(s.u.data) - 1)
    w.digest = scen.digest([[(b['mode'], b['slice'], b['pieces'], b['code'], b['stale']) for b in plan['children']], s.fingerprint()])
    return bad
