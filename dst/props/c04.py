"""A power failure never leaves a damaged table behind."""
import os
import random

from dst import scen, world as W
from dst.props import c03
from dst.props.common import Tables, arm_clock, check_table, violation, walk_tables

RUNS = {'quick': 1100, 'thorough': 20000}
RULE = ('one run = one seeded setup evolved in a folder, then 60 (quick) or 200 (thorough) seeded power failures: a point of the operation log, how many '
        'of the directory changes after the last fsync survived, and what happened to data not forced to the disk (lost, zeroed, partly written, '
        'with holes, kept); non-trivial: at least two exports; distinct by operation log')
ASSUMPTIONS = ['directory changes reach the disk in the order they were made, and all of them with the next fsync (ordered journal)',
               'data of a file is durable once fsync of it returned']
MUST_REACH = ['power_failures', 'unsynced_lost', 'exports']


def make_plan(rng, tier):
    plan = c03.make_plan(rng, tier)
    plan['cases'] = 60 if tier == 'quick' else 200
    plan['failures'] = rng.randrange(1 << 30)
    plan['only'] = None
    return plan


def execute(plan, w):
    bad = []
    arm_clock(w, plan['clock'])
    w.disk.arm(plan['faults'])
    folder = w.path('out')
    s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    c03.run_segments(s, plan)
    w.disk.disarm()
    ops = w.disk.ops()
    wanted = Tables(s, folder).wanted()
    # when was which version of a table completed, if nothing fails
    versions = {p: [] for p in wanted}
    end = {p: {} for p in wanted}

    def visit(op, look, torn):
        for path, n, problem in look:
            end[path][op.i] = n
            if n is not None and not torn and (not versions[path] or versions[path][-1][1] != n):
                versions[path].append((op.i, n))
    walk_tables(w.disk.initial, ops, wanted, visit)
    rng = random.Random(plan['failures'])
    interesting = [op.i for op in ops if op.kind in (W.RENAME, W.FSYNC, W.TRUNC) or (op.kind == W.OPEN and op.off & W.O_TRUNC)]
    for k in range(plan['cases']):
        if rng.random() < .6 and interesting:
            i = min(len(ops) - 1, max(0, rng.choice(interesting) + rng.randrange(-1, 4)))
        else:
            i = rng.randrange(len(ops))
        j = rng.choice([i, i, rng.randrange(i + 1), max(0, i - rng.randrange(4))])
        how = rng.choice(['lost', 'zeroed', 'partial', 'holes', 'kept'])
        state = W.power_loss(w.disk.initial, ops, i, j, how, rng)
        if plan['only'] is not None and k != plan['only']:
            continue
        w.count('power_failures')
        w.count('data_' + how)
        if j < i or how != 'kept':
            w.count('unsynced_lost')
        for path, (cols, rows) in wanted.items():
            raw = state.get(path)
            n, problem = (None, None) if raw is None else check_table(raw, cols, rows)
            where = 'case {}: power lost after {!r}, directory as of operation {}, unsynced data {}'.format(k, ops[i], j, how)
            if problem:
                bad.append(violation('damaged table', '{}: {}: {}'.format(os.path.basename(path), where, problem), case=k))
                continue
            done = [v for at, v in versions[path] if at <= i]
            if len(done) >= 2 and (n or 0) < done[-2]:
                bad.append(violation('export lost', '{}: {}: {} rows are there, but exports of {} and then {} rows were completed'.format(
                    os.path.basename(path), where, n, done[-2], done[-1]), case=k))
        if len(bad) > 2:
            break
    exports = sum(len(v) for v in versions.values())
    w.count('exports', exports)
    w.count('steps', len(s.u.data) - 1)
    w.count('nontrivial', int(exports >= 2))
    w.digest = scen.digest([plan['failures'], [(op.kind, op.seq, op.res, op.off) for op in ops]])
    return bad


def shrink(plan):
    yield from c03.shrink(plan)
