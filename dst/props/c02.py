"""Universes alive in one process do not influence each other."""
import os

import numpy

from dst import scen, stub_integral
from dst.props.common import arm_clock, read, violation

RUNS = {'quick': 500, 'thorough': 16000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [6, 1]
RULE = ('one run = 2-3 seeded setups living in one process; a seeded schedule interleaves their construction, single steps, longer segments, failing steps, '
        'exports, and steps taken by one universe inside the step monitor of another; each one is compared bit for bit with the same sequence of its '
        'own actions made alone in a process of its own; non-trivial: at least two universes took steps and were switched between; distinct by schedule and histories')
MUST_REACH = ['switches', 'nested_steps', 'failures', 'exports', 'kawano_pairs', 'steps', 'sterile', 'inner_switches', 'helper_calls']


class Injected(Exception):
    pass


def make_helper(rng):
    """ a universe with a sterile neutrino, while the grid of another one is worked out with the library's helpers """
    T0 = rng.choice([30., 40.])
    dy = rng.choice([.15, .2])
    n = int(numpy.log(16.) / numpy.log(1. + dy)) + rng.randint(1, 4)
    parts = [['photon', {}], ['electron', {}], ['nu_e', {'dec': T0 * 1.5}], ['nu_mu', {'dec': T0 * .01}],
             ['sterile', {'mass': rng.choice([20., 33.9]), 'theta': 1e-2, 'grid': 1, 'dec': T0 * 1.5}]]
    spec = {'mode': 'log', 'dy': dy, 'T0': T0, 'T1': T0 * (1. + dy) ** (-(n - .5)), 'steps': n, 'particles': parts, 'interactions': ['weak', 'sterile'],
            'samples': 13, 'pmax': 20., 'kawano': False, 'env': {}, 'stub': {'k': .01, 'eps': .1}}
    return {'helper': {'spec': spec, 'at': rng.randint(0, n), 'steps': n, 'mass': rng.choice([1., 30., 300.]), 'theta': rng.choice([1e-3, 1e-2, .5]),
                       'what': rng.choice(['decoupling_temperature', 'grid_params_HNL'])}}


def helper_run(h, w, call, clean):
    from common import kinematics
    s = scen.Setup(h['spec'], world=w, log_rate=1e9)
    stub_integral.ctl.reset()
    for n in range(h['steps'] + 1):
        if n == h['at'] and call:
            getattr(kinematics, h['what'])(h['mass'] * s.UNITS.MeV, h['theta'])
            if clean:
                os.environ.pop('Relativistic_decoupling', None)
        if n < h['steps']:
            scen.stable(s, lambda: s.step(first=n == 0))
    return s.fingerprint()


def execute_helper(plan, w):
    h = plan['helper']
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    want, got, clean = [w.alone(lambda: helper_run(h, w, *x)) for x in ((False, False), (True, False), (True, True))]
    w.count('helper_calls')
    w.digest = scen.digest([h, want])
    w.count('nontrivial')
    d = scen.differ(want, clean)
    if d:
        return [violation('universes interact', 'working out the grid of another universe ({what}) changes this one: '.format(**h) + d)]
    d = scen.differ(want, got)
    if d:
        return [violation('the library writes Relativistic_decoupling into the environment', 'calling kinematics.{what} for another universe changes this one: '.format(**h) + d)]
    return []


def make_plan(rng, tier):
    if rng.random() < .03:
        return make_helper(rng)
    n = rng.choice([2, 2, 2, 3])
    specs = []
    mode = None
    for i in range(n):
        spec = scen.random_spec(rng, steps=(6, 40), lin=mode is None, env=False, sterile=.2, decay=.12, dust=True)
        mode = mode or spec['mode']
        if spec['mode'] != mode:
            spec['mode'], spec['dx'] = 'lin', .05 / spec['T0']
            spec.pop('dy', None)
        spec['monitor'] = True
        spec['env'] = {}
        specs.append(spec)
    # one process has one environment
    if rng.random() < .3:
        for s in specs:
            s['env'] = {'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': ''}
    if rng.random() < .5:
        # the same setup twice, or nearly
        specs[1] = dict(specs[0]) if rng.random() < .3 else scen.sibling(rng, specs[0])
    if rng.random() < .15:
        # a heavy sterile neutrino in one; grids of another reach beyond MAX_MOMENTUM_MEV
        a, b = specs[0], specs[1]
        if mode == 'log':
            for s in (a, b):
                s.update(mode='log', T0=2., T1=2. * 1.05 ** -9.5, dy=.05, steps=10, pmax=40., samples=13)
                s.pop('grid', None)
        names = [p[0] for p in a['particles']]
        if 'sterile' not in names:
            a['particles'] = a['particles'] + [['sterile', {}]]
        for p in a['particles']:
            if p[0] == 'sterile':
                p[1].update(mass=100., theta=1e-2, grid=1, dec=4.)
        b['particles'] = [p for p in b['particles'] if p[0] not in ('sterile', 'nu_e')] + [['nu_e', {'dec': 4.}]]
        if not any(p[0].startswith('nu') for p in a['particles']):
            a['particles'].append(['nu_mu', {'dec': 4.}])
        a['interactions'] = ['sterile']
        b['interactions'] = ['weak']
        for s in (a, b):
            s.pop('osc', None)
            s.pop('decay', None)
            s['kawano'] = False
    for s in specs:
        s['stub'] = specs[0]['stub']
    for s in specs:
        s['folder'] = rng.random() < .5
    schedule = []
    built = set()
    for _ in range(rng.randint(8, 30)):
        i = rng.randrange(n)
        if i not in built:
            schedule.append([i, 'build', 0])
            built.add(i)
            continue
        r = rng.random()
        if r < .6:
            schedule.append([i, 'step', rng.choice([1, 1, 1, 2])])
        elif r < .7:
            schedule.append([i, 'fail', rng.randint(1, 6)])
        elif r < .8:
            schedule.append([i, 'export', 0])
        elif r < .9:
            j = rng.randrange(n)
            if j != i and j in built:
                schedule.append([i, 'nest', j])
        else:
            j = rng.randrange(n)
            if j != i and j in built:
                schedule.append([i, 'inside', j, rng.randint(1, 5)])       # j steps inside one of i's collision integrals
    return {'specs': specs, 'schedule': schedule}


class Driver(object):
    """ performs actions on universes; `only` replays what concerns one of them """

    def __init__(self, plan, w, only=None):
        self.plan, self.w, self.only = plan, w, only
        self.s = {}
        self.last = None
        self.inner = None

    def mine(self, i):
        return self.only is None or self.only == i

    def step(self, i, n=1):
        s = self.s.get(i)
        if s is None:
            return
        if self.last not in (None, i):
            self.w.count('switches')
        self.last = i
        for _ in range(n):
            T = s.u.params.T
            s.physics()
            scen.stable(s, lambda: s.u.evolve(T * scen.DOWN, export=False, init_time=not len(s.u.data)))
            self.w.count('steps')

    def act(self, n, entry):
        i, what = entry[0], entry[1]
        w = self.w
        ctl = stub_integral.ctl
        if what == 'build' and self.mine(i):
            folder = w.path('{}{}'.format('alone' if self.only is not None else 'together', i)) if self.plan['specs'][i]['folder'] else None
            self.s[i] = scen.Setup(self.plan['specs'][i], folder=folder, log_rate=.5, world=w)
            self.s[i].u.export_freq = 3
        elif what == 'step' and self.mine(i):
            self.step(i, entry[2])
        elif what == 'fail' and self.mine(i) and i in self.s:
            left = [entry[2]]

            def hook(k, ps, reaction, stepsize, kind, values):
                left[0] -= 1
                if left[0] == 0:
                    w.count('failures')
                    raise Injected()
                return values
            ctl.hook = hook
            try:
                self.step(i)
            except Injected:
                pass
            finally:
                ctl.hook = None
        elif what == 'export' and self.mine(i) and i in self.s:
            s = self.s[i]
            if len(s.u.data):
                w.count('exports')
                s.u.export()
        elif what == 'nest':
            j = entry[2]
            if self.only is None:
                if i in self.s and j in self.s and i != j:
                    w.count('nested_steps')
                    once = [j]
                    # (a heated universe may need two steps to become any colder)
                    self.s[i].monitors = [lambda u: once and self.step(once.pop())]
                    self.step(i)
                    self.s[i].monitors = []
            elif self.only in (i, j) and i != j and self.exists(n, i) and self.exists(n, j):
                self.step(self.only)
        elif what == 'inside':
            j = entry[2]
            if self.only is None:
                if i in self.s and j in self.s and i != j:
                    left = [entry[3]]
                    busy = [False]

                    def hook(k, ps, reaction, stepsize, kind, values):
                        if busy[0]:
                            return values
                        left[0] -= 1
                        if left[0] == 0:
                            busy[0] = True
                            w.count('inner_switches')
                            self.step(j)
                            busy[0] = False
                            self.s[i].physics()
                        return values
                    ctl.hook = hook
                    try:
                        self.step(i)
                    finally:
                        ctl.hook = None
                    if left[0] > 0:
                        self.step(j)
            elif self.only in (i, j) and i != j and self.exists(n, i) and self.exists(n, j):
                self.step(self.only)

    def exists(self, n, i):
        return any(e[0] == i and e[1] == 'build' for e in self.plan['schedule'][:n])

    def run(self):
        for n, entry in enumerate(self.plan['schedule']):
            self.act(n, entry)

    def answer(self, i):
        s = self.s[i]
        out = s.fingerprint()
        if s.folder:
            s.u.export()
            for f in ('evolution.txt', 'kawano.txt', 's4.dat'):
                raw = read(os.path.join(s.folder, f))
                out[f] = {'content': None if raw is None else raw.decode().split('\n')}
        return out


def execute(plan, w):
    if 'helper' in plan:
        return execute_helper(plan, w)
    bad = []
    arm_clock(w, {'wall': 1.6e9, 'ticks': [.001], 'jumps': [0.]})
    built = sorted({e[0] for e in plan['schedule'] if e[1] == 'build'})

    def alone(i):
        d = Driver(plan, w, only=i)
        d.run()
        return d.answer(i)
    want = {i: w.alone(lambda: alone(i)) for i in built}
    w.stats.clear()
    d = Driver(plan, w)
    d.run()
    for i in built:
        got = d.answer(i)
        diff = None
        for part in got:
            if got[part] != want[i].get(part):
                if part in ('history', 'kawano', 'distributions'):
                    diff = scen.differ({part: want[i][part]}, {part: got[part]})
                else:
                    diff = '{} differs'.format(part)
                break
        if diff:
            bad.append(violation('universes interact', 'universe {} of {}: {} (alone against together)'.format(i, len(built), diff)))
            break
    w.count('kawano_pairs', int(sum(bool(plan['specs'][i]['kawano']) for i in built) > 1))
    w.count('sterile', int(any('sterile' in plan['specs'][i]['interactions'] for i in built)))
    w.count('nontrivial', int(w.stats.get('switches', 0) > 0))
    w.digest = scen.digest([plan['schedule'], want])
    return bad


def shrink(plan):
    if 'helper' in plan:
        return
    for n, e in enumerate(plan['schedule']):
        if e[1] == 'step' and e[2] > 1:
            p = dict(plan, schedule=[list(x) for x in plan['schedule']])
            p['schedule'][n][2] = 1
            yield p
    for i in range(len(plan['specs'])):
        for s in scen.simplify_spec(plan['specs'][i]):
            p = dict(plan, specs=list(plan['specs']))
            p['specs'][i] = s
            yield p
