"""Exported tables are whole at every instant and after any crash."""
import os

from dst import scen, world as W
from dst.props.common import Tables, arm_clock, mark_rows, rand_clock, violation, walk_tables

RUNS = {'quick': 1300, 'thorough': 20000}
RULE = ('one run = one seeded setup evolved in a folder (export period 1-9 or the default, 1-4 segments, with and without intermediate exports, '
        'short writes); the operation log is replayed and the folder is inspected after every operation and inside every write that goes to a '
        'table, as a reader or a crash would find it; non-trivial: at least two exports of a table were seen; distinct by operation log')
ASSUMPTIONS = ['a killed process leaves exactly the operations issued so far plus possibly a part of the last write']
MUST_REACH = ['states', 'exports', 'short_writes', 'segments']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(2, 26), sterile=.05)
    if rng.random() < .06:
        spec['steps'], spec['dy'], spec['mode'] = 230, .005, 'log'
        spec.pop('dx', None)
        spec['kawano'] = False
        spec['T1'] = spec['T0'] * (1 + spec['dy']) ** (-(spec['steps'] - .5))
        freq = rng.choice([None, 100, 64])
    else:
        freq = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 30])
    segments = sorted((rng.random() for _ in range(rng.choice([0, 0, 1, 2, 3]))), reverse=True)
    ops = [{'at': f, 'export': rng.random() < .5} for f in segments]
    faults = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        at = rng.randrange(1, 60)
        faults.append({'at': at, 'until': at + rng.randrange(6), 'kind': W.F_SHORT, 'arg': rng.choice([1, 10, 100, 500])})
    return {'spec': spec, 'freq': freq, 'ops': ops, 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9]), 'faults': faults,
            'final_export': rng.random() < .85}


def run_segments(s, plan, w=None):
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    first = True
    for op in plan['ops']:
        s.run(T1 + (T0 - T1) * op['at'], export=op['export'], init_time=first)
        first = False
        if w:
            w.count('segments')
    s.run(T1, export=plan['final_export'], init_time=first)


def execute(plan, w):
    bad = []
    arm_clock(w, plan['clock'])
    w.disk.arm(plan['faults'])
    folder = w.path('out')
    s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    mark_rows(s, w)
    run_segments(s, plan, w)
    if plan['final_export']:
        w.disk.mark('returned')
    w.disk.disarm()
    w.count('short_writes', sum(w.disk.hits()))
    freq = plan['freq'] or s.u.export_freq
    ops = w.disk.ops()
    wanted = Tables(s, folder).wanted()
    ev = os.path.join(folder, 'evolution.txt')
    state = {'rows': {}, 'n': {}, 'marks': [(0, 0)], 'bad': 0, 'exports': 0, 'digest': []}

    def fail(cls, text):
        if state['bad'] < 3:
            bad.append(violation(cls, text))
        state['bad'] += 1

    def visit(op, look, torn):
        if op.kind == W.MARK and op.path.startswith('rows '):
            a, b = map(int, op.path.split()[1:])
            state['marks'].append((a, b))
        w.count('states')
        for path, n, problem in look:
            name = os.path.basename(path)
            if problem:
                fail('damaged table', '{} {} operation {!r}: {}'.format(name, 'inside' if torn else 'after', op, problem))
                continue
            old = state['n'].get(path, 0)
            if (n or 0) < old:
                fail('table shrank', '{} had {} rows and has {} after {!r}'.format(name, old, 'none (absent)' if n is None else n, op))
            if n is not None and n != state['n'].get(path):
                state['exports'] += 1
                state['digest'].append((op.seq, name, n))
            state['n'][path] = n or 0
            if not torn:
                rows, krows = state['marks'][-1]
                if path == ev:
                    missing = rows - max(n or 0, 1)            # the first row is no step
                    if missing > freq:
                        fail('export missing', '{} lacks {} steps of {} recorded rows, the export period is {}'.format(name, missing, rows, freq))
                else:
                    # rates recorded one period of steps ago or earlier
                    must = max([k for r, k in state['marks'] if r <= rows - freq] or [0])
                    if (n or 0) < must:
                        fail('export missing', '{} has {} rows, {} were recorded more than {} steps ago'.format(name, n, must, freq))
    final = walk_tables(w.disk.initial, ops, wanted, visit)
    if plan['final_export']:
        for path, (cols, rows) in wanted.items():
            if state['n'].get(path, -1) != len(rows) or final.read(path) is None:
                fail('incomplete at the end', '{} has {} of {} rows after the computation returned'.format(
                    os.path.basename(path), state['n'].get(path), len(rows)))
        problem = Tables(s, folder).complete()
        if problem:
            fail('incomplete at the end', problem)
    w.count('exports', state['exports'])
    w.count('operations', len(ops))
    w.count('steps', len(s.u.data) - 1)
    w.count('nontrivial', int(state['exports'] >= 2))
    w.digest = scen.digest([state['digest'], [(op.kind, op.seq, op.res, op.off) for op in ops if op.kind != W.MARK]])
    return bad


def shrink(plan):
    if plan['rate'] != 1e9:
        yield dict(plan, rate=1e9)
    if plan['clock']['kind'] != 'steady':
        yield dict(plan, clock={'kind': 'steady', 'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
