"""Ctrl-C at any moment ends the run cleanly."""
import os
import signal
import sys

from dst import scen, stub_integral, world as W
from dst.props import c03
from dst.props.common import Tables, arm_clock, violation, walk_tables

RUNS = {'quick': 900, 'thorough': 25000}
RULE = ('one run = one seeded setup evolved in a folder (or without one), first undisturbed to learn how many events it has, then again with SIGINT delivered at '
        '1-2 chosen events: before/after a file operation, at a clock reading, inside a collision integral, in the monitor, at a terminal write, or at a '
        'source line or bytecode of the repository; non-trivial: the signal arrived; distinct by the kind and place (file:line or operation) where it arrived '
        'and the rows recorded')
ASSUMPTIONS = ['the signal reaches the Python level at the next check of the interpreter, as in CPython; the program is the default one, with '
               'KeyboardInterrupt raised by the default handler']
MUST_REACH = ['hit_fs', 'hit_clock', 'hit_stub', 'hit_monitor', 'hit_terminal', 'hit_line', 'hit_opcode', 'in_export', 'system_exit', 'second_signal']
KINDS = ['fs', 'fs', 'fs', 'clock', 'stub', 'monitor', 'terminal', 'line', 'line', 'opcode', 'opcode']


def make_plan(rng, tier):
    plan = c03.make_plan(rng, tier)
    spec = plan['spec']
    if spec['steps'] > 14 and 'dy' in spec:
        spec['steps'] = rng.randint(2, 10)
        spec['T1'] = spec['T0'] * (1 + spec['dy']) ** (-(spec['steps'] - .5))
    if rng.random() < .3 and not spec.get('osc'):
        spec = plan['spec'] = scen.add_decay(rng, spec)
    spec['monitor'] = 1
    if plan['freq'] is None or plan['freq'] > 6:
        plan['freq'] = rng.choice([1, 2, 3, 5])
    plan['faults'] = []
    plan['ops'] = plan['ops'][:1]
    plan['final_export'] = rng.random() < .5
    plan['folder'] = rng.random() < .85
    plan['kills'] = []
    for n in range(1 if rng.random() < .85 else 2):
        kind = rng.choice(KINDS) if plan['folder'] else rng.choice(KINDS[3:])
        if n:
            kind = rng.choice(['terminal', 'line', 'fs'])
            plan['kills'][0]['kind'] = rng.choice(['stub', 'monitor', 'line', 'fs', 'fs'])
        plan['kills'].append({'kind': kind, 'at': rng.random() if n == 0 else rng.choice([1, 2, 3, 8, 20, 100]), 'after': rng.random() < .5,
                              'among': rng.choice(['all', 'export', 'evolution.py', 'place', 'place'])})
    return plan


class Events(object):
    """ counts the events of each kind and sends the signal at the chosen ones """

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.n = {'stub': 0, 'monitor': 0, 'terminal': 0, 'line': 0, 'opcode': 0}
        self.at = {}
        self.then = {}
        self.exporting = []          # line/opcode numbers inside the export code
        self.master = []
        self.places = {}             # first and last time that each place was reached
        self.where = None
        self.tracing = None

    def hit(self, kind, place=None):
        self.n[kind] += 1
        if self.n[kind] in self.at.get(kind, ()):
            self.where = [kind, place]
            self.w.count('hit_' + kind)
            os.kill(os.getpid(), signal.SIGINT)

    def stub(self, n, ps, reaction, stepsize, kind, values):
        self.hit('stub')
        return values

    def monitor(self, universe):
        self.hit('monitor')

    def terminal(self, text):
        self.hit('terminal')

    def trace(self, kind):
        self.tracing = kind
        opcode = kind == 'opcode'
        repo = W.REPO + '/'

        def local(frame, event, arg):
            if event == kind:
                code = frame.f_code
                if len(self.exporting) < 200000 and 'utils.py' in code.co_filename:
                    self.exporting.append(self.n[kind] + 1)
                elif 'evolution.py' in code.co_filename:
                    self.master.append(self.n[kind] + 1)
                if not self.at:
                    place = (code.co_filename[len(repo):], frame.f_lineno or 0, frame.f_lasti if opcode else 0)
                    self.places.setdefault(place, [self.n[kind] + 1, 0])[1] = self.n[kind] + 1
                self.hit(kind, '{}:{}'.format(code.co_filename[len(repo):], frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            name = frame.f_code.co_filename
            if not name.startswith(repo):
                return None
            if opcode:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        if opcode:
            sys._getframe().f_trace_opcodes = True      # 3.12 looks at this when tracing is switched on
        sys.settrace(tracer)


def go(plan, w, kills, kind_traced):
    arm_clock(w, plan['clock'])
    stub_integral.ctl.reset()
    w.terminal.chunks[:] = []
    w.terminal.observers[:] = []
    sys.stdout = w.terminal
    folder = w.path('out') if plan['folder'] else None
    s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    ev = Events(w, s)
    stub_integral.ctl.hook = ev.stub
    s.monitors.append(ev.monitor)
    w.terminal.observers.append(ev.terminal)
    w.disk.arm()
    w.disk.faults = []
    base_reads = w.clock.reads()
    for k in kills:
        if k.get('then'):
            ev.then[k['kind']] = k
        elif k['kind'] == 'fs':
            w.disk.fault(at=k['at'], kind=W.F_SIGINT_AFTER if k['after'] else W.F_SIGINT_BEFORE)
        elif k['kind'] == 'clock':
            w.clock.sigint(base_reads + k['at'])
        else:
            ev.at.setdefault(k['kind'], []).append(k['at'])
    seen = []

    def handler(sig, frame):
        seen.append(len(s.u.data))
        for k in list(ev.then.values()):
            if k['kind'] == 'fs':
                w.disk.fault(at=w.disk.seq() + k['at'], kind=W.F_SIGINT_AFTER if k['after'] else W.F_SIGINT_BEFORE)
            else:
                ev.at.setdefault(k['kind'], []).append(ev.n[k['kind']] + k['at'])
        ev.then = {}
        f = frame
        while f is not None and not f.f_code.co_filename.startswith(W.REPO + '/'):
            f = f.f_back
        ev.place = '{}:{}'.format(os.path.basename(f.f_code.co_filename), f.f_lineno) if f else None
        names = set()
        while f is not None:
            names.add(f.f_code.co_name)
            f = f.f_back
        if 'savetxt' in names or 'atomic_open' in names or 'export' in names:
            w.count('in_export')
        signal.default_int_handler(sig, frame)
    signal.signal(signal.SIGINT, handler)
    if kind_traced:
        ev.trace(kind_traced)
    failed = None
    try:
        c03.run_segments(s, plan)
        ended = 'returned'
    except KeyboardInterrupt:
        ended = 'KeyboardInterrupt'
    except SystemExit as e:
        ended = 'SystemExit {!r}'.format(e.code)
        failed = e.code
    finally:
        sys.settrace(None)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
    return s, ev, seen, ended, failed, w.clock.reads() - base_reads, folder


def execute(plan, w):
    bad = []
    kinds = {k['kind'] for k in plan['kills']}
    traced = 'opcode' if 'opcode' in kinds else 'line' if 'line' in kinds else None

    def scout():
        s, ev, seen, ended, failed, reads, folder = go(plan, w, [], traced)
        if ended.startswith('SystemExit') and not s.u.params.T > 0:
            raise scen.Unstable()
        if ended != 'returned':
            raise RuntimeError('the undisturbed run ended with ' + ended)
        seq = [op.seq for op in w.disk.ops() if op.kind != W.MARK]
        w.disk.disarm()
        import shutil
        if folder:
            shutil.rmtree(folder)
        return {'n': dict(ev.n, clock=reads, fs=len(seq)), 'exporting': ev.exporting[-20000:], 'master': ev.master[-20000:], 'places': [ev.places[k] for k in sorted(ev.places)], 'rows': len(s.u.data)}
    counts = w.alone(scout)
    kills = []
    for k in plan['kills']:
        at = k['at']
        if kills:
            at = kills[0]['at'] + at if kills[0]['kind'] == k['kind'] else at
        elif isinstance(at, float):
            pool = {'export': counts['exporting'], 'evolution.py': counts['master']}.get(k['among'])
            if k['kind'] in ('line', 'opcode') and k['among'] == 'place' and counts['places']:
                at = counts['places'][int(at * len(counts['places']))][int(k['after'])]
            elif k['kind'] in ('line', 'opcode') and pool:
                at = pool[int(at * len(pool))]
            else:
                at = 1 + int(at * counts['n'][k['kind']])
        if k['kind'] in {x['kind'] for x in kills} and k['kind'] not in ('fs', 'line'):
            continue
        if kills and kills[0]['kind'] != k['kind']:
            # counted from the first signal on
            k = dict(k, then=1)
        kills.append(dict(k, at=at))
    s, ev, seen, ended, code, reads, folder = go(plan, w, kills, traced)
    hits = w.disk.hits()
    w.count('hit_fs', sum(hits))
    n_clock = [k for k in kills if k['kind'] == 'clock' and reads >= k['at']]
    w.count('hit_clock', len(n_clock))
    fired = bool(ev.where or sum(hits) or n_clock)
    w.count('second_signal', int(len(seen) > 1))
    w.disk.disarm()
    if fired:
        if ended == 'returned':
            # the very last instruction may have been over when the signal was noticed: only if nothing was left to do
            bad.append(violation('interrupt ignored', 'SIGINT at {} with {} rows recorded: the run went on and returned with {} rows'.format(
                ev.where or kills, seen, len(s.u.data))))
        elif ended.startswith('SystemExit'):
            w.count('system_exit')
            if code in (0, None, False):
                bad.append(violation('exit status', 'after the interrupt the program ends with exit status {!r}, as if it had succeeded'.format(code)))
        if seen and len(s.u.data) > seen[0] + 1:
            bad.append(violation('went on', 'interrupted with {} rows, ended with {}'.format(seen[0], len(s.u.data))))
        if folder:
            t = Tables(s, folder)
            problem = t.whole()
            if problem:
                bad.append(violation('damaged table', 'after SIGINT at {}: {}'.format(ev.where or kills, problem)))
    elif ended != 'returned':
        bad.append(violation('spurious', 'no interrupt, but the run ended with ' + ended))
    w.count('steps', len(s.u.data) - 1)
    w.count('nontrivial', int(fired))
    w.digest = scen.digest([ev.where, getattr(ev, 'place', None), [(k['kind'], k['at']) for k in kills if k['kind'] in ('fs', 'clock')], seen, ended, len(s.u.data)])
    return bad


def shrink(plan):
    if len(plan['kills']) > 1:
        yield dict(plan, kills=plan['kills'][:1])
    if plan['rate'] != 1e9:
        yield dict(plan, rate=1e9)
    if plan['ops']:
        yield dict(plan, ops=[])
