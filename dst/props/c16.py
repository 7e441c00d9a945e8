"""The log is a faithful copy and is throttled by real time only."""
import gc
import re
import sys

from dst import scen, stub_integral
from dst.props.common import read, violation

RUNS = {'quick': 1300, 'thorough': 25000}
RULE = ('one run = one seeded setup evolved with a logging interval while the simulator decides how long every step takes and sets the clock forward and back between '
        'and within steps, in 1-4 segments, with failing steps, other text printed meanwhile and one or two universes logging; the printed progress lines are '
        'checked against the scripted clock and the log file against the terminal; non-trivial: a step was reported and another one was withheld; '
        'distinct by the sequence of reported steps and jumps')
ASSUMPTIONS = ['reports are compared with a slack of 1% of the interval']
MUST_REACH = ['reported', 'withheld', 'must_report', 'must_withhold', 'jumps_back', 'jumps_forth', 'kawano_lines', 'foreign_text', 'nested', 'failed_steps']
TEXTS = ['plain\n', 'no newline', '', 'δf ünï 漢字 \U0001f600\n', '\r\n', 'a\tb\n\n', 'x' * 9000 + '\n', '\x00\x1b[1m']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(6, 30), sterile=.05, osc=False)
    if rng.random() < .6:
        spec['interactions'] = []
    spec['monitor'] = 1
    rate = rng.choice([0, .5, 2, 2, 10, 3600, None])
    unit = 2. if rate is None else (rate or 1.)
    style = rng.choice(['short', 'mixed', 'long', 'tiny'])
    sizes = {'short': [.05, .1, .3], 'mixed': [0, .1, .3, .7, 1.2, 5], 'long': [1.1, 2, 40], 'tiny': [0, 1e-4, 1e-3]}[style]
    n = spec['steps'] + 5
    durations = [unit * rng.choice(sizes) * rng.uniform(.9, 1.1) for _ in range(n)]
    jumps = []
    if rng.random() < .6:
        for _ in range(rng.randint(1, 5)):
            jumps.append([rng.randrange(n), rng.choice([-1, 1]) * min(2e8, unit * rng.choice([.2, .5, .9, 2, 100, 1e7]))])
    cuts = sorted((rng.random() for _ in range(rng.choice([0, 0, 1, 3]))), reverse=True)
    prints = [[rng.randrange(n), rng.randrange(len(TEXTS)), rng.choice(['print', 'write', 'part'])] for _ in range(rng.choice([0, 1, 4]))]
    return {'spec': spec, 'rate': rate, 'durations': durations, 'jumps': jumps, 'cuts': cuts, 'prints': prints, 'folder': rng.random() < .8,
            'nested': rng.random() < .15, 'wall': rng.choice([1.6e9, 0., 1e5, 4.1e9]), 'tick': rng.choice([0, 1e-7, 1e-6]),
            'faults': [rng.randrange(1, 60) for _ in range(rng.choice([0, 0, 1, 2]))] if spec['interactions'] else []}


class Injected(Exception):
    pass


LINE = re.compile(r'\] #(\d+)\b')


def execute(plan, w):
    bad = []
    w.clock.arm(wall=plan['wall'], mono=1e5, ticks=[plan['tick']], jumps=[0.])
    stub_integral.ctl.reset()
    rate = 2. if plan['rate'] is None else plan['rate']
    slack = .01 * (rate or 1e-9)
    outer = None
    if plan['nested']:
        outer = scen.Setup(scen.random_spec(__import__('random').Random(5), steps=(2, 3), interactions=False, kawano=False), folder=w.path('outer'),
                           world=w, log_rate=1e9)
        w.count('nested')
    # everything the terminal gets passes by here: (step running, text)
    feed = []
    w.terminal.observers.append(lambda text: feed.append(text))
    folder = w.path('out') if plan['folder'] else None
    s = scen.Setup(plan['spec'], folder=folder, log_rate=plan['rate'], world=w)
    start = len(feed)
    faults = set(plan['faults'])

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in faults:
            faults.discard(n)
            w.count('failed_steps')
            raise Injected()
        return values
    stub_integral.ctl.hook = hook
    # timeline: 0 is the construction
    mono, wall = {0: w.clock.mono()}, {0: w.clock.wall()}
    last_jump, back = {}, {}
    marks = {}

    def monitor(u):
        k = u.step
        for at, what, how in plan['prints']:
            if at == k - 1:
                w.count('foreign_text')
                if how == 'print':
                    print(TEXTS[what], end='')
                elif how == 'write':
                    sys.stdout.write(TEXTS[what])
                else:
                    for c in TEXTS[what][:40]:
                        sys.stdout.write(c)
        d = plan['durations'][(k - 1) % len(plan['durations'])]
        w.clock.advance(d * .5)
        for at, j in plan['jumps']:
            if at == k - 1:
                w.clock.jump(j)
                last_jump[k] = w.clock.mono()
                back[k] = back.get(k) or j < 0
                w.count('jumps_back' if j < 0 else 'jumps_forth')
        w.clock.advance(d * .5)
        mono[k], wall[k] = w.clock.mono(), w.clock.wall()
        marks[k] = len(feed)
    s.monitors.append(monitor)
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    todo = [T1 + (T0 - T1) * f for f in plan['cuts']] + [T1]
    for T in todo:
        while True:
            try:
                s.run(T, export=False, init_time=len(s.u.data) == 0)
                break
            except Injected:
                pass
    steps = len(s.u.data) - 1
    # --- the copy
    mine = ''.join(feed[start:])
    if folder:
        sys.stdout = w.terminal
        s.u.kawano_log = None
        text = ''.join(feed)
        data, spec = s.u.data, s.spec
        del s
        stub_integral.ctl.hook = None
        gc.collect()
        if sys.stdout is not w.terminal:
            # (given back by the logger: whatever was there before it)
            sys.stdout = w.terminal
        gc.collect()
        raw = read(folder + '/log.txt')
        if raw is None:
            bad.append(violation('no log', 'log.txt is not there'))
        else:
            log = raw.decode('utf8', 'replace')
            if not (log.endswith(mine) and text.endswith(log)):
                n = next((i for i, (a, b) in enumerate(zip(log[::-1], mine[::-1])) if a != b), min(len(log), len(mine)))
                bad.append(violation('log differs', 'log.txt ({} characters) is not what the terminal got ({}); they agree on the last {} characters; log before: {!r}, '
                                     'terminal before: {!r}'.format(len(log), len(mine), n, log[max(0, len(log) - n - 60):len(log) - n],
                                                                    mine[max(0, len(mine) - n - 60):len(mine) - n])))
        if outer is not None:
            raw = read(w.path('outer') + '/log.txt')
            # the outer log is still open: what is there must be a part of what was printed
            if raw and not ''.join(w.terminal.chunks).startswith(raw.decode('utf8', 'ignore')[:len(raw) - 4]):
                bad.append(violation('log differs', 'the log of the other universe holds text that was not printed in that order'))
    # --- the throttle
    text = ''.join(feed)
    reported = {int(m.group(1)) for m in LINE.finditer(text)}
    kaw = set()
    order = sorted(marks)
    for i, k in enumerate(order):
        end = marks[order[i + 1]] if i + 1 < len(order) else len(feed)
        if any(t.startswith('KAWANO') for t in feed[marks[k]:end]):
            kaw.add(k)
    w.count('kawano_lines', len(kaw))
    if 1 not in reported:
        bad.append(violation('not reported', 'the first step is not reported'))
    j = 0
    seq = []
    for k in range(1, steps + 1):
        if k not in mono:
            bad.append(violation('no monitor', 'step {} did not call the monitor'.format(k)))
            break
        line = (k + 1) in reported
        jumped = [i for i in last_jump if i > j and i <= k]
        set_back = any(back[i] for i in jumped)
        # (a clock set back inside a step may show any time at its end: what counts starts there)
        passed_mono = mono[k] - max([mono[j]] + [mono[i] if back[i] else last_jump[i] for i in jumped])
        passed_wall = wall[k] - wall[j]
        if passed_mono >= rate + slack:
            w.count('must_report')
            if not line:
                bad.append(violation('not reported', 'step {}: {:.6g} s of a steady clock since the last report or change of the clock, interval {} s, but no report '
                                     '(last reported: {}, clock changes since: {})'.format(k + 1, passed_mono, rate, j + 1, jumped)))
                break
        may = passed_wall >= rate - slack or set_back or (jumped and passed_wall < 0)
        if not may:
            w.count('must_withhold')
            if line or k in kaw:
                bad.append(violation('reported too early', 'step {} is reported {:.6g} s after step {}, the interval is {} s'.format(k + 1, passed_wall, j + 1, rate)))
                break
        if line:
            j = k
            w.count('reported')
        else:
            w.count('withheld')
        seq.append(line)
    w.count('steps', steps)
    w.count('simulated_seconds', int(sum(plan['durations'][:steps])))
    w.count('nontrivial', int(any(seq) and not all(seq)))
    w.digest = scen.digest([seq, sorted(last_jump), plan['jumps'], len(mine)])
    return bad


def shrink(plan):
    import copy
    for k in ('prints', 'faults', 'cuts'):
        if plan[k]:
            yield dict(copy.deepcopy(plan), **{k: []})
    if plan['nested']:
        yield dict(plan, nested=False)
    if len(set(plan['durations'])) > 1:
        for d in sorted(set(plan['durations']))[:3]:
            yield dict(plan, durations=[d])
