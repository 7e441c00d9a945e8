"""Seeded arguments for the compiled collision integrals, and calls of them in the simulated runtime."""
import math

from dst import native

POLICIES = {0: 'random', 1: 'run to completion', 2: 'priorities'}


def random_reaction(rng):
    three = rng.random() < .35
    d = {'which': 'three' if three else 'four'}
    n = rng.choice([6, 9, 13, 20])
    top = rng.choice([8., 15., 25.])
    if rng.random() < .3:
        grid = [0.] + [10 ** (math.log10(.05) + (math.log10(top) - math.log10(.05)) * i / (n - 2)) for i in range(n - 1)]
    else:
        grid = [top * i / (n - 1) for i in range(n)]
    d['grid'] = [round(x, 9) for x in grid]
    light = lambda: rng.choice([0., 0., 0., .2, .5, 1.])
    if three:
        if rng.random() < .5:
            d['type'] = 'decay'
            m1, m2 = light(), light()
            d['masses'] = [m1 + m2 + rng.choice([1., 4., 20.]), m1, m2]
            d['sides'] = [-1, 1, 1]
        else:
            d['type'] = 'creation'
            m0, m1 = light(), light()
            d['masses'] = [m0, m1, m0 + m1 + rng.choice([1., 4., 20.])]
            d['sides'] = [-1, -1, 1]
    else:
        d['type'] = rng.choice(['scattering', 'scattering', 'decay', 'creation'])
        a, b, c = light(), light(), light()
        if d['type'] == 'scattering':
            d['masses'] = rng.choice([[0., 0., 0., 0.], [0., a, 0., a], [a, b, a, b], [0., 0., a, a], [a, a, 0., 0.], [0., 0., 2., 3.], [0., 1., 3., 3.]])
            d['sides'] = [-1, -1, 1, 1]
        elif d['type'] == 'decay':
            d['masses'] = [a + b + c + rng.choice([1., 5., 30.]), a, b, c]
            d['sides'] = [-1, 1, 1, 1]
        else:
            d['masses'] = [a, b, c, a + b + c + rng.choice([1., 5., 30.])]
            d['sides'] = [-1, -1, -1, 1]
    k = len(d['masses'])
    d['eta'] = [rng.choice([1, 1, 1, -1]) if d['masses'][i] > 0 else 1 for i in range(k)]
    d['eq'] = [int(rng.random() < .4) for _ in range(k)]
    d['T'] = [rng.choice([1., 1., .8, 1.3]) for _ in range(k)]
    d['pert'] = [rng.choice([0., .1, .5]) for _ in range(k)]
    d['Ms'] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = [0, 1, 2, 3]
        rng.shuffle(o)
        d['Ms'].append([o, rng.choice([1., .3, 2.]), rng.choice([0., 0., .5]), rng.choice([0., 0., .2])])
    d['step'] = rng.choice([1e-3, 1e-2, .1])
    return d


def random_momenta(rng, d, most=20):
    g = d['grid']
    r = rng.random()
    if r < .5:
        ps = list(g)
    elif r < .8:
        ps = [rng.choice(g) for _ in range(rng.randint(1, most))]
    else:
        ps = [round(rng.uniform(0., g[-1]), 6) for _ in range(rng.randint(1, most))]
    r = rng.random()
    if r < .4:
        rng.shuffle(ps)
    elif r < .5:
        ps.reverse()
    if d['which'] == 'four' and not any(d['masses']):
        # degenerate: at rest and without masses the integrand is 0/0 noise that no quadrature settles
        ps = [p for p in ps if p] or [g[1]]
    return ps[:most]


class Call(object):
    """ one reaction, ready to be integrated by one of the builds """

    def __init__(self, d, instrumented=False):
        self.d = d
        self.m = m = (native.instr if instrumented else native.plain)[d['which']]
        sfx = '3' if d['which'] == 'three' else ''
        grid_t, particle_t, reaction_t = (getattr(m, x + sfx) for x in ('grid_t', 'particle_t', 'reaction_t'))
        g = d['grid']
        self.reaction = []
        for i, mass in enumerate(d['masses']):
            f = []
            for p in g:
                e = math.sqrt(p * p + mass * mass)
                if d['eta'][i] < 0:
                    e = max(e, 1e-3)
                v = 1. / (math.exp(min(e / d['T'][i], 600.)) + d['eta'][i])
                f.append(v * (1. + d['pert'][i] * math.cos(p + i)))
            self.reaction.append(reaction_t(specie=particle_t(m=mass, grid=grid_t(grid=g, distribution=f), eta=d['eta'][i],
                                                             in_equilibrium=d['eq'][i], T=d['T'][i]), side=d['sides'][i]))
        if d['which'] == 'four':
            self.Ms = [m.M_t(list(o), k1, k2, k) for o, k1, k2, k in d['Ms']]

    def __call__(self, ps, kind):
        lo, hi = self.d['grid'][0], self.d['grid'][-1]
        if self.d['which'] == 'four':
            return self.m.integration(ps, lo, hi, lo, hi, hi, self.reaction, self.Ms, self.d['step'], kind)
        return self.m.integration_3(ps, lo, hi, hi, self.reaction, self.d['step'], kind)


def bits(v):
    return float(v).hex()


def close(a, b, scale):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-10 * max(abs(a), abs(b)) or abs(a - b) <= 1e-13 * scale


class Reference(object):
    """ every momentum on its own, in a team of one """

    def __init__(self, call):
        self.call, self.known, self.stats = call, {}, {}

    def get(self, p, kind):
        key = (p, kind)
        if key not in self.known:
            native.rt.reset_handler()
            native.rt.configure(seed=1)
            try:
                self.known[key] = ('value', self.call([p], kind)[0])
            except Exception as e:
                self.known[key] = ('error', '{}: {}'.format(type(e).__name__, e))
            self.stats[key] = native.rt.stats()
        return self.known[key]


def random_schedule(rng):
    threads = rng.choice([2, 2, 3, 4, 8, 8, 13])
    policy = rng.choice([0, 0, 0, 1, 2])
    ppm = rng.choice([1000, 10000, 100000])
    instrumented = rng.random() < .5
    mem = rng.choice([50, 300, 2000, 20000]) if instrumented else 0
    return {'seed': rng.randrange(1 << 40), 'threads': threads, 'policy': policy, 'switch_ppm': ppm, 'mem_period': mem}
