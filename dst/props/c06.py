"""KAWANO is started on a complete input file."""
import os

import numpy

from dst import scen, world as W
from dst.props.common import arm_clock, rand_clock, read, violation

RUNS = {'quick': 2000, 'thorough': 16000}
RULE = ('one run = one seeded setup with KAWANO evolved in a folder, around the KAWANO temperature, in 1-4 segments each with or without export and with '
        'failed steps; the simulated external program is started with its own pace and reads its input when the scheduler lets it; the '
        'input is also inspected after every file operation; non-trivial: the program was started and the input had at least two lines; '
        'distinct by content and operation log')
MUST_REACH = ['starts', 'lines', 'above_and_below', 'failed_steps']


class Injected(Exception):
    pass


def make_plan(rng, tier):
    spec = scen.random_spec(rng, kawano=True, steps=(2, 20), sterile=.05)
    if rng.random() < .5:
        # cross 10 MeV
        dy = rng.choice([.02, .05, .1])
        n = spec['steps']
        k = rng.randint(0, n)
        spec['T0'] = 10. * (1 + dy) ** k * rng.choice([1., 1. + dy / 2, 1. - 1e-9, 1. + 1e-9])
        for p in spec['particles']:
            if 'dec' in p[1]:
                p[1]['dec'] = spec['T0'] * rng.choice([.01, 1.5, .8])
        if spec['mode'] == 'log':
            spec['dy'] = dy
        else:
            spec['dx'] = dy / spec['T0']
        spec['T1'] = spec['T0'] * (1. + dy) ** (-(n - .5))
    cuts = sorted((rng.random() for _ in range(rng.choice([0, 0, 1, 2, 3]))), reverse=True)
    return {'spec': spec, 'cuts': cuts, 'exports': [rng.random() < .6 for _ in cuts], 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9]),
            'freq': rng.choice([1, 2, 3, 5, 100]), 'fail': [rng.randrange(1, 60) for _ in range(rng.choice([0, 0, 1, 3]))],
            'slices': [rng.randrange(6) for _ in range(5)]}


def numbers(raw):
    lines = raw.decode().split('\n')
    if lines[-1] != '':
        raise ValueError('the last line is cut: {!r}'.format(lines[-1][:60]))
    return lines[0], [[float(x) for x in l.split('\t')] for l in lines[1:-1]]


def close(a, b, tol=2e-6):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def judge(s, raw):
    """ None or what is wrong with the input file, given what the universe has recorded """
    from common import UNITS, CONST
    import kawano
    if raw is None:
        return 'there is no input file'
    try:
        heading, lines = numbers(raw)
    except ValueError as e:
        return str(e)
    if heading.split('\t') != [c[0] for c in kawano.heading]:
        return 'heading {!r}'.format(heading[:80])
    d = s.history()
    k = s.kawano_history()
    below = [i for i in range(1, len(d['T'])) if d['T'][i] <= 10. * UNITS.MeV]
    if len(lines) != len(below):
        return '{} lines, but {} steps were made at or below 10 MeV'.format(len(lines), len(below))
    if len(k['t']) != len(below):
        return '{} rows of rates, but {} steps were made at or below 10 MeV'.format(len(k['t']), len(below))
    cols = list(s.u.kawano_data.columns)
    units = [float(x) for x in s.u.kawano_data.units]
    for n, (line, i) in enumerate(zip(lines, below)):
        if len(line) != 12:
            return 'line {} has {} columns'.format(n, len(line))
        for j, c in enumerate(cols):
            if not close(line[j], k[c][n] / units[j]):
                return 'line {}: column {} is {!r}, the table has {!r}'.format(n, c, line[j], k[c][n] / units[j])
        H = numpy.sqrt(8. / 3. * numpy.pi * d['rho'][i]) / CONST.M_p
        if s.spec.get('mode', 'log') == 'log':
            dT = (d['fraction'][i] - d['aT'][i]) * H / d['a'][i]
        else:
            dT = (d['fraction'][i] - d['T'][i] / (1. * UNITS.MeV)) * H * UNITS.MeV
        want = [d['t'][i] / UNITS.s, d['x'][i] / UNITS.MeV, d['T'][i] / UNITS.K9, dT / (UNITS.K9 / UNITS.s), d['rho'][i] / UNITS.g_cm3, H * UNITS.s]
        for j, x in enumerate(want):
            if not close(line[j], x):
                return 'line {}: column {} is {!r}, the history gives {!r}'.format(n, cols[j], line[j], x)
        for j in range(6, 12):
            if not (numpy.isfinite(line[j])):
                return 'line {}: rate {} is {!r}'.format(n, cols[j], line[j])
    return None


def execute(plan, w):
    from dst import stub_integral
    bad = []
    arm_clock(w, plan['clock'])
    w.disk.arm()
    folder = w.path('out')
    path = os.path.join(folder, 's4.dat')
    s = scen.Setup(dict(plan['spec'], export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    fails = set(plan['fail'])

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in fails:
            fails.discard(n)
            w.count('failed_steps')
            raise Injected()
        return values
    stub_integral.ctl.hook = hook
    contents = []

    def spawned(popen, args, env):
        w.count('starts')
        given = (env or {}).get('INPUT')
        raw = read(given) if given else None
        contents.append(raw)
        problem = judge(s, raw)
        if problem:
            bad.append(violation('incomplete input', 'when the program is started: ' + problem))
    w.on_spawn = spawned
    w.behaviours = [{'mode': 'ok', 'slice': x} for x in plan['slices']]
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    todo = [(T1 + (T0 - T1) * c, e) for c, e in zip(plan['cuts'], plan['exports'])] + [(T1, True)]
    while todo:
        try:
            s.run(todo[0][0], export=todo[0][1], init_time=len(s.u.data) == 0)
        except Injected:
            continue
        todo.pop(0)
    w.disk.disarm()
    if not w.children:
        bad.append(violation('not started', 'the external program was never started'))
    for c, raw in zip(w.children, contents):
        if c.input_text is None or (raw is not None and c.input_text.encode() != raw):
            bad.append(violation('incomplete input', 'the program read something else than was there when it was started'))
    problem = judge(s, read(path))
    if problem:
        bad.append(violation('incomplete input', 'at the end: ' + problem))
    final = read(path) or b''
    m = W.Model(w.disk.initial)
    last = 0
    ops = w.disk.ops()
    for op in ops:
        m.apply(op)
        raw = m.read(path)
        if raw is None:
            if last:
                bad.append(violation('input vanished', 'after {!r}'.format(op)))
                break
            continue
        if not final.startswith(raw):
            bad.append(violation('not a prefix', 'after {!r} the input file is not a prefix of the final one'.format(op)))
            break
        if len(raw) < last:
            bad.append(violation('input shrank', 'after {!r}: {} bytes after {}'.format(op, len(raw), last)))
            break
        last = len(raw)
        w.count('states')
    k = len(s.u.kawano_data)
    w.count('lines', k)
    w.count('steps', len(s.u.data) - 1)
    w.count('above_and_below', int(0 < k < len(s.u.data) - 1))
    w.count('nontrivial', int(k >= 2 and bool(w.children)))
    w.digest = scen.digest([final, [(op.kind, op.seq, op.off) for op in ops], plan['slices'][:len(w.children)]])
    return bad
