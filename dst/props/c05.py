"""A failing disk is reported and destroys no earlier export."""
import errno
import os

from dst import scen, world as W
from dst.props import c03
from dst.props.common import Tables, arm_clock, violation

RUNS = {'quick': 700, 'thorough': 20000}
RULE = ('one run = one seeded setup evolved in a folder; the same run is first made with a working disk to learn its file operations, then again with '
        '1-4 faults on operations of exports (ENOSPC, EIO, EDQUOT, EACCES, EROFS, EMFILE on single operations or on stretches, short writes); after each '
        'exception the disk is inspected and the computation is continued; non-trivial: a fault hit an operation on a table; distinct by faults and log')
ASSUMPTIONS = ['a failing call has no effect on the disk (short writes excepted)']
MUST_REACH = ['faults_on_tables', 'exceptions', 'recoveries', 'short_writes', 'rename_failed', 'open_failed', 'write_failed', 'fsync_failed']
ERRORS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.EMFILE]


def make_plan(rng, tier):
    plan = c03.make_plan(rng, tier)
    plan['spec']['steps'] = min(plan['spec']['steps'], 26)
    plan['final_export'] = True
    plan['faults'] = []
    for _ in range(rng.randint(1, 4)):
        f = {'pick': rng.random(), 'among': rng.choice(['table', 'table', 'table', 'any']), 'len': rng.choice([1, 1, 1, 2, 5, 20]),
             'arg': rng.choice(ERRORS), 'kind': W.F_ERRNO, 'only': rng.choice([None, None, 'OPEN', 'WRITE', 'RENAME', 'FSYNC'])}
        if rng.random() < .25:
            f.update(kind=W.F_SHORT, arg=rng.choice([1, 3, 50, 700]), len=rng.choice([1, 4, 30]))
        plan['faults'].append(f)
    plan['recover'] = rng.choice(['continue', 'continue', 'export'])
    plan['cut'] = 0
    return plan


def segments(plan):
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    return [(T1 + (T0 - T1) * op['at'], op['export']) for op in plan['ops']] + [(T1, True)]


def is_table(path):
    name = os.path.basename(path)
    return 'evolution' in name or ('kawano' in name and 'output' not in name)


def execute(plan, w):
    bad = []
    spec = dict(plan['spec'], export_freq=plan['freq'])
    # --- the same with a working disk
    arm_clock(w, plan['clock'])
    w.disk.arm()
    ref = scen.Setup(spec, folder=w.path('a'), log_rate=plan['rate'], world=w)
    for n, (T, export) in enumerate(segments(plan)):
        ref.run(T, export=export, init_time=n == 0)
    want = ref.fingerprint()
    seq0 = w.disk.seq()
    ops = [op for op in w.disk.ops() if op.kind != W.MARK]
    w.disk.disarm()
    # table operations: those on a path which is renamed to a table, or is one
    aside = {op.path for op in ops if op.kind == W.RENAME and is_table(op.data.decode())}
    tableops = [op for op in ops if op.path in aside or is_table(op.path)]
    tableops = [op for op in tableops if op.kind != W.CLOSE]
    # --- and with the failing one
    arm_clock(w, plan['clock'])
    w.terminal.chunks[:] = []
    import sys
    sys.stdout = w.terminal
    faults = []
    for f in plan['faults']:
        cands = [op for op in (tableops if f['among'] == 'table' else ops) if not f['only'] or W.OPNAMES[op.kind] == f['only']]
        if f['kind'] == W.F_SHORT:
            cands = [op for op in cands if op.kind == W.WRITE]
        if not cands:
            continue
        at = cands[int(f['pick'] * len(cands))].seq
        mask = (1 << W.OPEN | 1 << W.WRITE | 1 << W.RENAME | 1 << W.FSYNC | 1 << W.TRUNC)
        faults.append({'at': at, 'until': at + f['len'] - 1, 'kind': f['kind'], 'arg': f['arg'], 'ops': mask})
    folder = w.path('b')
    w.disk.arm()
    s = None
    w.disk.faults = []
    for f in faults:
        w.disk.fault(**f)
    try:
        s = scen.Setup(spec, folder=folder, log_rate=plan['rate'], world=w)
    except OSError:
        w.count('constructor_failed')
        w.count('nontrivial', 0)
        w.digest = None
        return bad
    tables = Tables(s, folder)
    todo = segments(plan)
    exceptions, used = 0, 0
    first = True
    while todo:
        T, export = todo[0]
        before = len(W.faulted(w.disk.ops()))
        try:
            s.run(T, export=export, init_time=first)
            failed = None
        except W.HarnessError:
            raise
        except Exception as e:
            failed = e
        hits = W.faulted(w.disk.ops())[before:]
        if hits or failed:
            used += len(hits)
        # `init_time` of the very first call is done before anything can fail on the disk, if it logs nothing
        first = first and len(s.u.data) == 0
        on_tables = [h for h in hits if h[0] == 'errno' and (h[2].replace('/b/', '/a/') in aside or is_table(h[2]))]
        if failed is not None:
            exceptions += 1
            w.count('exceptions')
            if not [h for h in hits if h[0] == 'errno']:
                bad.append(violation('spurious exception', 'no operation failed, but the caller got {!r}'.format(failed)))
                break
        if on_tables and failed is None:
            problem = tables.complete() if export else tables.whole()
            if problem or any(h[1] == W.FSYNC for h in on_tables):
                bad.append(violation('failure not reported', 'operations on tables failed ({}), nobody was told; {}'.format(
                    [(W.OPNAMES[h[1]], os.path.basename(h[2])) for h in on_tables[:3]], problem or 'an fsync failed')))
                break
            w.count('failures_overcome')
        for h in on_tables:
            w.count('faults_on_tables')
            w.count(W.OPNAMES[h[1]].lower() + '_failed')
        w.count('short_writes', len([h for h in hits if h[0] == 'short']))
        # (rows are compared with the history of the universe itself, which may still be behind)
        problem = tables.whole()
        if problem:
            bad.append(violation('table damaged', 'after {} ({}): {}'.format(
                'the exception' if failed else 'the segment', [(h[0], W.OPNAMES[h[1]], os.path.basename(h[2])) for h in hits[:3]], problem)))
            break
        if failed is None:
            if export:
                problem = tables.complete()
                if problem and not on_tables:
                    bad.append(violation('incomplete export', problem))
                    break
            todo.pop(0)
            continue
        if exceptions > 200:
            bad.append(violation('no recovery', 'still failing after {} attempts'.format(exceptions)))
            break
        if exceptions > 25 or plan['recover'] == 'export':
            if exceptions > 25:
                # the disk is repaired
                w.disk.disarm()
                w.disk.arm()
                w.disk.faults = []
            try:
                s.u.export()
                w.count('recoveries')
                problem = tables.complete()
                if problem:
                    bad.append(violation('incomplete export', 'after recovery: ' + problem))
                    break
            except W.HarnessError:
                raise
            except Exception:
                pass
        w.count('recoveries')
    else:
        d = scen.differ(want, s.fingerprint())
        if d:
            bad.append(violation('history changed', 'after {} failures and recovery: {}'.format(exceptions, d)))
        problem = tables.complete()
        if problem and not bad:
            # the last segment "succeeded": all rows must be there
            bad.append(violation('incomplete export', 'after recovery: ' + problem))
    w.disk.disarm()
    w.count('steps', len(s.u.data) - 1)
    w.count('nontrivial', int(used > 0))
    w.digest = scen.digest([[(h[0], h[1], os.path.basename(h[2])) for h in W.faulted(w.disk.ops())], want, plan['freq'], plan['ops']])
    return bad
