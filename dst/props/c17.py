"""The step monitor is called exactly once for every step."""
import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, rand_clock, violation

RUNS = {'quick': 600, 'thorough': 20000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [5, 1]
RULE = ('one run = one seeded setup computed without a monitor, with one undisturbed, and with one while the run is cut into segments, exported, logged, its steps fail '
        'and are retried, another universe with its own monitor is stepped in between, and the monitor is taken away and put back; non-trivial: at least two such '
        'disturbances happened; distinct by the states seen and the disturbances')
MUST_REACH = ['calls', 'failures', 'segments', 'exports', 'interleaved', 'absent']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(3, 14), sterile=.15, decay=.12, dust=True)
    ops = []
    for f in sorted((rng.random() for _ in range(rng.choice([0, 1, 2, 4]))), reverse=True):
        ops.append({'at': f, 'export': rng.random() < .4, 'between': rng.choice([None, None, 'other', 'export']),
                    'monitor': rng.random() < .85})
    other = scen.random_spec(rng, steps=(8, 12), lin=False, env=False, interactions=rng.random() < .5)
    if spec['mode'] == 'lin':
        other['mode'], other['dx'] = 'lin', .05 / other['T0']
    other['env'] = spec['env']
    faults = sorted(rng.randrange(1, 200) for _ in range(rng.choice([0, 0, 1, 3]))) if spec['interactions'] else []
    return {'spec': spec, 'ops': ops, 'other': other, 'faults': faults, 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9]),
            'folder': rng.random() < .6, 'freq': rng.choice([1, 2, 5, 100]), 'first': rng.random() < .9}


class Injected(Exception):
    pass


class Watch(object):
    def __init__(self, s):
        self.s, self.calls, self.wrong = s, [], None
        self.on = True

    def state(self, u):
        d = [u.step, len(u.data), float(u.params.x).hex(), float(u.params.aT).hex(), float(u.params.T).hex(), float(u.params.t).hex(), float(u.fraction).hex()]
        d.append(scen.digest(scen.hx(self.s.distributions())))
        for n in self.s.order:
            p = self.s.p[n]
            c = p.collision_integral
            d.append([n, bool(p.in_equilibrium), [] if p.in_equilibrium else [float(x).hex() for x in numpy.ravel(c)]])
        return d

    def __call__(self, u):
        if u is not self.s.u:
            self.wrong = 'called with something else than its universe'
            return
        self.calls.append(self.state(u))


def execute(plan, w):
    bad = []
    spec = plan['spec']
    arm_clock(w, plan['clock'])
    stub_integral.ctl.reset()
    ref = scen.Setup(spec, world=w, log_rate=1e9)
    ref.run(export=False)
    want = ref.fingerprint()
    rows = len(ref.u.data)

    stub_integral.ctl.reset()
    plain = scen.Setup(spec, world=w, log_rate=1e9)
    seen = Watch(plain)
    plain.u.step_monitor = seen
    plain.run(export=False)
    d = scen.differ(want, plain.fingerprint())
    if d:
        bad.append(violation('monitor changes the result', 'a monitor that only looks: ' + d))

    def check_calls(watch, s, cls, rows, expected=None):
        hist = s.history()
        if watch.wrong:
            bad.append(violation('wrong argument', watch.wrong))
        steps = [c[1] for c in watch.calls]
        wanted = expected if expected is not None else list(range(1, rows))
        if steps != wanted:
            bad.append(violation(cls, 'steps made with a monitor: {} ({} rows); calls when the history had this many rows: {}'.format(len(wanted), rows, steps)))
            return
        numbers = [c[0] for c in watch.calls]
        for c in watch.calls:
            k = c[1]
            if c[2] != float(hist['x'][k - 1]).hex() or c[3] != float(hist['aT'][k - 1]).hex():
                bad.append(violation('called at the wrong time', 'in step {} the monitor does not see the state the step starts from'.format(k)))
                return
            if c[6] != float(hist['fraction'][k]).hex():
                bad.append(violation('called at the wrong time', 'in step {} the monitor sees another temperature derivative than the recorded one'.format(k)))
                return
        if len(set(numbers)) != len(numbers) or numbers != sorted(numbers):
            bad.append(violation('step number', 'the monitor sees the step numbers {}'.format(numbers)))
    check_calls(seen, plain, 'calls', rows)
    if seen.calls and not bad:
        # the distributions of the last step are those seen in its call
        last = scen.digest(scen.hx(plain.distributions()))
        if seen.calls[-1][7] != last:
            bad.append(violation('called at the wrong time', 'the distribution functions change after the monitor of the step was called'))
    if bad:
        return finish(w, bad, want, [], 0)

    # --- disturbed
    stub_integral.ctl.reset()
    folder = w.path('out') if plan['folder'] else None
    s = scen.Setup(dict(spec, export_freq=plan['freq']), folder=folder, log_rate=plan['rate'], world=w)
    watch = Watch(s)
    faults = set(plan['faults'])
    disturbances = []
    expected = []

    def hook(n, ps, reaction, stepsize, kind, values):
        if n in faults:
            faults.discard(n)
            w.count('failures')
            disturbances.append('failure')
            raise Injected()
        return values
    stub_integral.ctl.hook = hook
    T0, T1 = spec['T0'], spec['T1']
    other, other_watch = None, None
    monitor = plan['first']

    def advance(T, export):
        s.u.step_monitor = watch if monitor else None
        if not monitor:
            w.count('absent')
            disturbances.append('absent')
        before = len(s.u.data)
        while True:
            try:
                s.run(T, export=export, init_time=len(s.u.data) == 0)
                break
            except Injected:
                pass
        if monitor:
            expected.extend(range(max(before, 1), len(s.u.data)))
    for op in plan['ops']:
        advance(T1 + (T0 - T1) * op['at'], op['export'])
        w.count('segments')
        disturbances.append('segment')
        monitor = op['monitor']
        if op['export']:
            w.count('exports')
        if op['between'] == 'export':
            s.u.export()
            w.count('exports')
            disturbances.append('export')
        elif op['between'] == 'other':
            if other is None:
                keep = stub_integral.ctl.hook
                other = scen.Setup(plan['other'], world=w, log_rate=1e9)
                other_watch = Watch(other)
                other.u.step_monitor = other_watch
            stub_integral.ctl.hook = None
            n = len(other_watch.calls)
            other.step(first=len(other.u.data) == 0, n=2)
            stub_integral.ctl.hook = hook
            s.physics()
            w.count('interleaved')
            disturbances.append('other')
            if len(other_watch.calls) != n + 2 or other_watch.wrong:
                bad.append(violation('calls', 'two steps of the other universe called its monitor {} times; {}'.format(
                    len(other_watch.calls) - n, other_watch.wrong)))
    advance(T1, False)
    d = scen.differ(want, s.fingerprint())
    if d:
        bad.append(violation('monitor changes the result', 'with {}: {}'.format(sorted(set(disturbances)), d)))
    check_calls(watch, s, 'calls', len(s.u.data), expected)
    if not bad:
        by = {c[1]: c for c in seen.calls}
        for c in watch.calls:
            if c != by[c[1]]:
                n = [i for i, (a, b) in enumerate(zip(c, by[c[1]])) if a != b]
                bad.append(violation('other state', 'in step {} the monitor sees another state than in the undisturbed run (items {})'.format(c[1], n)))
                break
    w.count('calls', len(watch.calls))
    return finish(w, bad, want, disturbances, len(watch.calls))


def finish(w, bad, want, disturbances, n):
    w.count('steps', n)
    w.count('nontrivial', int(len(disturbances) >= 2))
    w.digest = scen.digest([want, disturbances])
    return bad
