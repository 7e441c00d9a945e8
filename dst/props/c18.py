"""A new run in a used folder starts clean and never mixes with the old one."""
import errno
import gc
import os
import sys

from dst import scen, world as W
from dst.props.common import Tables, arm_clock, check_table, rand_clock, read, violation

RUNS = {'quick': 2500, 'thorough': 20000}
RULE = ('one run = one seeded setup evolved in a folder that already holds complete, cut or foreign files of earlier runs (written by the simulator or by an earlier '
        'universe, possibly still alive, in the same process); removals may fail, the external program may fail, the run is cut into segments; the folder is '
        'inspected after every file operation from the creation on; non-trivial: at least one old file was there; distinct by old content and operation log')
ASSUMPTIONS = ['failing removals have no effect']
MUST_REACH = ['old_files', 'earlier_universe', 'earlier_alive', 'foreign', 'removal_failed', 'constructor_raised', 'states', 'kawano_failed', 'second_start']
NAMES = ['log.txt', 'evolution.txt', 'kawano.txt', 's4.dat', 'kawano_output.dat']
MARK = b'7.777777777'


def old_content(rng, name):
    if name == 'log.txt':
        return '#### log of an old run 7.777777777\n' * rng.choice([1, 40, 4000])
    if name == 'kawano_output.dat':
        return 'OLD OUTPUT 7.777777777\n'
    cols = 12 if name in ('kawano.txt', 's4.dat') else 9
    text = '# ' + '\t'.join('c{}'.format(i) for i in range(cols)) + '\n' if name != 's4.dat' else '\t'.join('c%d' % i for i in range(cols)) + '\n'
    text += ('\t'.join(['7.777777777e+77'] * cols) + '\n') * rng.choice([1, 3, 60, 700])
    return text


def make_plan(rng, tier):
    spec = scen.random_spec(rng, kawano=rng.random() < .7, steps=(2, 10), interactions=rng.random() < .3)
    old = {}
    for n in NAMES:
        if rng.random() < .75:
            t = old_content(rng, n)
            if rng.random() < .3:
                t = t[:rng.randrange(len(t) + 1)]
            old[n] = t
    foreign = {}
    for n in ['evolution.txt.tmp', 'kawano.txt.tmp', 'notes.txt', 'sub/plot.dat', 'sub/deep/x', '.hidden', 'evolution.txt~']:
        if rng.random() < .2:
            foreign[n] = 'foreign 7.777777777\n'
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({'at': rng.randint(1, 8), 'len': rng.choice([1, 2, 10]), 'arg': rng.choice([errno.EACCES, errno.EBUSY, errno.EPERM, errno.EIO, errno.EROFS])})
    earlier = None
    if rng.random() < .4:
        earlier = {'spec': scen.random_spec(rng, kawano=rng.random() < .7, steps=(2, 8), interactions=False, env=False, lin=False),
                   'alive': rng.random() < .5, 'export': rng.random() < .6, 'freq': rng.choice([1, 2, 100])}
    ops = [{'at': f, 'export': rng.random() < .5} for f in sorted((rng.random() for _ in range(rng.choice([0, 1, 2]))), reverse=True)]
    children = [{'mode': rng.choice(['ok', 'ok', 'missing', 'killed_early', 'killed_late', 'no_output']), 'pieces': 3, 'slice': rng.randrange(4),
                 'text': 'NEW OUTPUT {} 1.0\n'.format(i)} for i in range(4)]
    return {'spec': spec, 'old': old, 'foreign': foreign, 'faults': faults, 'earlier': earlier, 'ops': ops, 'children': children, 'freq': rng.choice([1, 2, 3, 100]),
            'clock': rand_clock(rng), 'rate': rng.choice([0, 1e9])}


def execute(plan, w):
    bad = []
    arm_clock(w, plan['clock'])
    folder = w.path('out')
    keep = None
    if plan['earlier']:
        e = plan['earlier']
        if plan['spec'].get('mode') == 'lin':
            e['spec']['mode'], e['spec']['dx'] = 'lin', .03 / e['spec']['T0']
        w.count('earlier_universe')
        keep = scen.Setup(dict(e['spec'], export_freq=e['freq']), folder=folder, log_rate=0, world=w)
        w.behaviours = [{'mode': 'ok', 'text': 'OLD OUTPUT 7.777777777\n'}]
        keep.run(export=e['export'])
        if not e['alive']:
            sys.stdout = w.terminal
            keep = None
            gc.collect()
            sys.stdout = w.terminal
        else:
            w.count('earlier_alive')
    for n, text in list(plan['old'].items()) + list(plan['foreign'].items()):
        if plan['earlier'] and n in NAMES and n != 'kawano_output.dat':
            continue
        p = os.path.join(folder, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        w.count('foreign', int(n not in NAMES))
    old = {n: read(os.path.join(folder, n)) for n in NAMES}
    old = {n: c for n, c in old.items() if c is not None}
    w.count('old_files', len(old))
    w.disk.arm()
    w.disk.faults = []
    mask = 1 << W.UNLINK | 1 << W.RMDIR | 1 << W.RENAME
    for f in plan['faults']:
        w.disk.fault(at=f['at'], until=f['at'] + f['len'] - 1, kind=W.F_ERRNO, arg=f['arg'], ops=mask)
    s = None
    start = len(w.terminal.text())
    for attempt in range(60):
        before = sys.stdout
        try:
            s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
            break
        except OSError as e:
            w.count('constructor_raised')
            sys.stdout = before
            if not [h for h in W.faulted(w.disk.ops())]:
                bad.append(violation('cannot start', 'no operation failed, but the creation raised {!r}'.format(e)))
                return finish(w, bad, plan, [])
            w.count('second_start')
    hits = W.faulted(w.disk.ops())
    w.count('removal_failed', len(hits))
    if s is None:
        bad.append(violation('cannot start', 'still failing after 60 attempts'))
        return finish(w, bad, plan, [])
    w.disk.mark('created')
    printed0 = len(w.terminal.text())
    w.behaviours = [dict(c) for c in plan['children']]
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    todo = plan['ops'] + [{'at': 0., 'export': True}]
    nhits = len(hits)
    while todo:
        op = todo.pop(0)
        try:
            s.run(T1 + (T0 - T1) * op['at'], export=op['export'], init_time=len(s.u.data) == 0)
        except W.HarnessError:
            raise
        except Exception as e:
            now = len(W.faulted(w.disk.ops()))
            if now > nhits:
                # a fault meant for the removal hit an export: try again
                nhits = now
                todo.insert(0, op)
                continue
            if not w.events or not any(ev[0] == 'spawn' and ev[1] != 'ok' for ev in w.events):
                raise
            w.count('kawano_failed')
    w.disk.mark('end')
    printed = w.terminal.text()[printed0:]
    if '7.777777777' in printed:
        bad.append(violation('old data reported', 'the new run prints data of the old one'))
    # flush everything, as at the end of the program
    for f in [getattr(s.u, 'kawano_log', None)]:
        if f:
            f.flush()
    tables = Tables(s, folder).wanted()
    sys.stdout = w.terminal
    kd = s.u.kawano_data if s.spec['kawano'] else None
    heading = '\t'.join(c for c in kd.columns) + '\n' if kd is not None else ''
    s.u = None
    keep = None
    gc.collect()
    sys.stdout = w.terminal
    gc.collect()
    w.disk.disarm()
    ops = w.disk.ops()
    final = {n: read(os.path.join(folder, n)) for n in NAMES}
    # --- what a reader finds at every instant
    m = W.Model(w.disk.initial)
    created = False
    seen = {}
    texts = [c['text'].encode() for c in plan['children']]

    def new_ok(n, raw):
        if MARK in raw:
            return 'it holds data of the old run'
        p = os.path.join(folder, n)
        if p in tables:
            cols, rows = tables[p]
            return check_table(raw, cols, rows)[1]
        if n in ('evolution.txt', 'kawano.txt'):
            return 'the new run has no such table'
        if n == 'kawano_output.dat':
            return None if any(t.startswith(raw) for t in texts) else 'it is no output of this run: {!r}'.format(raw[:60])
        if final[n] is None or not final[n].startswith(raw):
            return 'it is no beginning of the file the new run leaves behind'
        return None
    if final['log.txt'] is not None and not w.terminal.text()[start:].encode().endswith(final['log.txt']):
        bad.append(violation('mixed', 'log.txt is not what the new run printed'))
    if kd is not None and final['s4.dat'] is not None and not (final['s4.dat'].startswith(heading.encode()) and MARK not in final['s4.dat']):
        bad.append(violation('mixed', 's4.dat does not start with its heading or holds old data'))
    if final['log.txt'] is None:
        bad.append(violation('no log', 'the new run leaves no log.txt'))
    initial_nodes = {n: m.names.get(os.path.join(folder, n)) for n in NAMES}
    for op in ops:
        m.apply(op)
        if op.kind == W.MARK:
            created = created or op.path == 'created'
        w.count('states')
        for n in NAMES:
            node = m.names.get(os.path.join(folder, n))
            if node is None:
                continue
            raw = bytes(node.data)
            key = (n, created, node is initial_nodes[n], raw)
            if key in seen:
                continue
            problem = None
            if n in old and node is initial_nodes[n] and raw == old[n]:
                if created and raw:
                    problem = 'the file of the old run is still there after the new one has started'
            else:
                problem = new_ok(n, raw)
            seen[key] = problem
            if problem:
                bad.append(violation('mixed', '{} {} {!r}: {}'.format(n, 'after' if created else 'during the creation, after', op, problem)))
                if len(bad) > 2:
                    return finish(w, bad, plan, ops)
    return finish(w, bad, plan, ops)


def finish(w, bad, plan, ops):
    w.disk.disarm()
    w.count('nontrivial', int(bool(plan['old']) or bool(plan['earlier'])))
    w.digest = scen.digest([sorted(plan['old']), sorted(plan['foreign']), [(op.kind, op.seq, op.res, op.off, os.path.basename(op.path)) for op in ops]])
    return bad


def shrink(plan):
    import copy
    if plan['earlier']:
        yield dict(plan, earlier=None)
    for k in ('old', 'foreign'):
        for n in plan[k]:
            p = copy.deepcopy(plan)
            del p[k][n]
            yield p
