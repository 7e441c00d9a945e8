"""The QCD transition keeps entropy and continues the same history."""
import os

import numpy

from dst import scen, stub_integral
from dst.props.common import Tables, arm_clock, rand_clock, violation

RUNS = {'quick': 2500, 'thorough': 16000}
RULE = ('one run = one seeded quark-gluon plasma (2-4 quarks, gluons, leptons, decoupled sterile and active neutrinos) evolved for some steps, taken through the transition '
        'and evolved on: once in two plain segments and once with the segments cut further, exports, failing steps and other universes (which may make their own '
        'transition) in between; non-trivial: the transition was made and steps followed; distinct by history and disturbances')
MUST_REACH = ['transitions', 'decoupled_species', 'quarkic_interactions', 'hadronic_interactions', 'interleaved', 'other_transitions', 'failures', 'exports', 'secondary_interactions']
COLOURED = {'Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark', 'Gluon'}


def make_spec(rng):
    T0 = rng.choice([160., 180., 220., 300.])
    dy = rng.choice([.01, .02, .05])
    parts = [['photon', {}], ['electron', {}]]
    for q in ('up', 'down', 'strange', 'charm'):
        if rng.random() < .75:
            parts.append([q, {}])
    if rng.random() < .8:
        parts.append(['gluon', {}])
    for n in ('muon', 'nu_e', 'nu_mu', 'nu_tau'):
        if rng.random() < .6:
            d = {'dec': rng.choice([T0 * 2, T0 * .9, 3.])} if n.startswith('nu') else {}
            parts.append([n, d])
    if rng.random() < .6:
        parts.append(['sterile', {'mass': rng.choice([10., 33.9, 300.]), 'theta': 1e-2, 'grid': 1, 'dec': T0 * rng.choice([2, .95, .01])}])
    if rng.random() < .3:
        parts.append(['heavy', {'n': 0, 'mass': rng.choice([1., 100.]), 'dec': T0 * rng.choice([2, .01]), 'grid': 1, 'dof': 3, 'boson': True}])
    rng.shuffle(parts)
    before, after = rng.randint(1, 8), rng.randint(1, 6)
    spec = {'mode': 'log', 'T0': T0, 'dy': dy, 'T1': 1., 'kawano': False, 'particles': parts, 'interactions': ['weak'] if rng.random() < .5 else [],
            'samples': 13, 'pmax': 20., 'stub': {'k': .02, 'eps': .1}, 'env': {}, 'steps': 10}
    if rng.random() < .2:
        spec.update(mode='lin', dx=dy / T0)
    if rng.random() < .2:
        spec['env'] = {'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': ''}
    return {'spec': spec, 'before': before, 'after': after, 'hadrons': rng.choice([['pi0', 'pi+'], ['pi0'], ['pi+'], []]),
            'quark_int': rng.random() < .6, 'hadron_int': rng.random() < .6, 'second_int': rng.random() < .4, 'lepton_int': rng.choice([None, None, 'before', 'after'])}


def make_plan(rng, tier):
    plan = make_spec(rng)
    other = make_spec(rng)
    for k in ('mode', 'env'):
        other['spec'][k] = plan['spec'][k]
    if plan['spec']['mode'] == 'lin':
        other['spec']['dx'] = .02 / other['spec']['T0']
    else:
        other['spec']['dy'] = .02
    plan['other'] = other
    # what happens after each step: nothing, a new segment, an export, steps of the other universe, its transition
    plan['schedule'] = [rng.choice(['', '', 'other', 'other', 'other_transition', 'export']) for _ in range(plan['before'] + plan['after'] + 1)]
    plan['faults'] = [rng.randrange(1, 120) for _ in range(rng.choice([0, 0, 1, 3]))]
    plan['folder'] = rng.random() < .5
    plan['freq'] = rng.choice([1, 2, 100])
    plan['clock'] = rand_clock(rng)
    return plan


class Injected(Exception):
    pass


class Plasma(object):
    def __init__(self, plan, w, **kw):
        from collections import defaultdict
        from particles import Particle
        from library.SM import particles as SMP
        from library.NuMSM import interactions as NuI
        self.plan = plan
        self.s = s = scen.Setup(plan['spec'], world=w, log_rate=1e9, **kw)
        self.hadrons = []
        for h in plan['hadrons']:
            self.hadrons.append(Particle(**{'pi0': SMP.hadrons.neutral_pion, 'pi+': SMP.hadrons.charged_pion}[h]))
        self.quarkic, self.hadronic, self.second = [], [], []
        thetas = defaultdict(float, {'electron': 1e-3})
        quarks = [s.p[n] for n in ('up', 'down', 'strange', 'charm') if n in s.p]
        if 'sterile' in s.p and 'nu_e' in s.p:
            if plan['quark_int'] and quarks:
                self.quarkic = NuI.sterile_quark_interactions(thetas=thetas, sterile=s.p['sterile'], neutrinos=[s.p['nu_e']], leptons=[s.p['electron']], quarks=quarks)
            if plan['hadron_int'] and self.hadrons:
                self.hadronic = NuI.sterile_hadrons_interactions(thetas=thetas, sterile=s.p['sterile'], neutrinos=[s.p['nu_e']], leptons=[s.p['electron']], mesons=self.hadrons)
            if plan['second_int']:
                self.second = NuI.sterile_leptons_interactions(thetas=thetas, sterile=s.p['sterile'], neutrinos=[s.p['nu_e']], leptons=[s.p['electron']])
        # interactions with leptons carry the same names as those with quarks and stay
        leptonic = []
        if plan.get('lepton_int') and 'sterile' in s.p and 'nu_e' in s.p:
            leptonic = NuI.sterile_leptons_interactions(thetas=thetas, sterile=s.p['sterile'], neutrinos=[s.p['nu_e']], leptons=[s.p['electron']])
            w.count('leptonic_interactions')
            for mine, other in zip(leptonic, self.quarkic):
                mine.name = other.name          # names are free text
        s.u.interactions += (leptonic + self.quarkic) if plan.get('lepton_int') == 'before' else (self.quarkic + leptonic)
        self.done = False

    def step(self, **kw):
        self.s.step(first=len(self.s.u.data) == 0, **kw)

    def transition(self, w):
        """ -> list of problems """
        s, u = self.s, self.s.u
        bad = []
        before = list(u.particles)
        inters = list(u.interactions)
        p = {k: getattr(u.params, k) for k in ('x', 'a', 't', 'aT', 'T', 'h', 'dx')}
        rows = {c: numpy.array(u.data[c]).copy() for c in u.data.columns}
        decoupled = {q: (q.aT, numpy.array(q._distribution).copy()) for q in before if not q.in_equilibrium}
        w.count('transitions')
        w.count('decoupled_species', len(decoupled))
        for k in ('quarkic', 'hadronic', 'second'):
            w.count({'second': 'secondary'}.get(k, k) + '_interactions', int(bool(getattr(self, k))))

        def dof(parts):
            return sum(q.dof * (7. / 8. if q.eta > 0 else 1.) for q in parts if p['T'] > q.mass and q not in decoupled
                       and (q in before or p['T'] > q.decoupling_temperature))
        kept = [q for q in before if q.name not in COLOURED]
        g0, g1 = dof(before), dof(kept + self.hadrons)
        self.s.physics()
        u.QCD_transition(hadrons=list(self.hadrons), quarkic_interactions=list(self.quarkic) or None, hadronic_interactions=list(self.hadronic) or None,
                         secondary_interactions=list(self.second) or None)
        self.done = True
        want = {id(q) for q in kept + self.hadrons}
        have = [id(q) for q in u.particles]
        if sorted(have) != sorted(want):
            bad.append(violation('content', 'after the transition the species are {}, expected {}'.format(
                sorted(q.name for q in u.particles), sorted(q.name for q in kept + self.hadrons))))
        wi = [i for i in inters if not any(i is q for q in self.quarkic)] + list(self.hadronic) + list(self.second)
        if sorted(map(id, u.interactions)) != sorted(map(id, wi)):
            bad.append(violation('interactions', 'after the transition there are {} interactions, {} were expected (or others)'.format(len(u.interactions), len(wi))))
        for k in ('x', 'a', 't', 'h', 'dx'):
            if not abs(getattr(u.params, k) - p[k]) <= 1e-14 * abs(p[k]):
                bad.append(violation('not left alone', '{} changed from {!r} to {!r} in the transition'.format(k, p[k], getattr(u.params, k))))
        ratio = (g0 / g1) ** (1. / 3.)
        aT = p['aT'] * ratio
        if not abs(u.params.aT - aT) <= 1e-12 * aT or not abs(u.params.T - aT / p['a']) <= 1e-12 * u.params.T:
            bad.append(violation('temperature', 'aT went from {!r} to {!r}, the degrees of freedom {} -> {} give {!r}'.format(p['aT'], u.params.aT, g0, g1, aT)))
        for q, (qaT, f) in decoupled.items():
            if q.in_equilibrium or q.aT != qaT or not numpy.array_equal(numpy.array(q._distribution), f):
                bad.append(violation('not left alone', '{} was decoupled and is changed by the transition'.format(q.name)))
        for q in u.particles:
            if q not in decoupled and q.in_equilibrium and not abs(q.T - u.params.T) <= 1e-12 * q.T:
                bad.append(violation('temperature', '{} is in equilibrium at {!r} while the plasma has {!r}'.format(q.name, q.T, u.params.T)))
        n = len(u.data)
        for c in rows:
            if n < len(rows[c]) - 1 or n > len(rows[c]) or not numpy.array_equal(rows[c][:n], numpy.array(u.data[c])):
                bad.append(violation('history', 'the transition changed earlier rows of {}, or removed more than the last one'.format(c)))
                break
        self.at = (p['x'], u.params.aT)
        return bad


def continued(plasma, after):
    """ problems of the history after the transition """
    d = plasma.s.history()
    x, aT = plasma.at
    if not numpy.all(numpy.diff(d['x']) > 0):
        return violation('repeated scale factor', 'x of the history: {}'.format(list(d['x'] / plasma.s.UNITS.MeV)))
    n = [i for i in range(len(d['x'])) if d['x'][i] == x]
    if len(n) != 1:
        return violation('history', 'the scale factor of the transition appears {} times in the history'.format(len(n)))
    if d['aT'][n[0]] != aT:
        return violation('history', 'the row of the transition has aT = {!r} instead of {!r}'.format(d['aT'][n[0]], aT))
    if not numpy.all(numpy.diff(d['t']) > 0):
        return violation('history', 'time does not grow: {}'.format(list(d['t'])))
    return None


def execute(plan, w):
    bad = []
    arm_clock(w, plan['clock'])
    stub_integral.ctl.reset()
    # --- plain: two segments
    ref = Plasma(plan, w)
    scen.stable(ref.s, lambda: ref.step(n=1))
    xs = []
    scen.stable(ref.s, lambda: ref.step(n=plan['before'] - 1)) if plan['before'] > 1 else None
    bad += ref.transition(w)
    scen.stable(ref.s, lambda: ref.step(n=plan['after']))
    c = continued(ref, plan['after'])
    if c:
        bad.append(c)
    if len(ref.s.u.data) < 1 + plan['before'] + plan['after'] and not bad:
        bad.append(violation('history', '{} rows after {} + {} steps'.format(len(ref.s.u.data), plan['before'], plan['after'])))
    want = ref.s.fingerprint()
    happened = []
    if not bad:
        stub_integral.ctl.reset()
        folder = w.path('out') if plan['folder'] else None
        spec = dict(plan, spec=dict(plan['spec'], export_freq=plan['freq']))
        d = Plasma(spec, w, folder=folder)
        faults = set(plan['faults'])
        state = {'on': True}

        def hook(n, ps, reaction, stepsize, kind, values):
            if state['on'] and n in faults:
                faults.discard(n)
                w.count('failures')
                happened.append('failure')
                raise Injected()
            return values
        stub_integral.ctl.hook = hook
        other = None

        def disturb(what):
            nonlocal other
            if not what:
                return
            if what == 'export':
                if folder:
                    d.s.u.export()
                    w.count('exports')
                    happened.append('export')
                return
            state['on'] = False
            if other is None:
                other = Plasma(plan['other'], w)
                other.step(n=1)
            if what == 'other_transition' and not other.done:
                bad.extend(other.transition(w))
                w.count('other_transitions')
            other.step(n=1)
            w.count('interleaved')
            happened.append(what)
            state['on'] = True
            d.s.physics()

        def step():
            while True:
                try:
                    n = len(d.s.u.data)
                    d.step(n=1)
                    return
                except Injected:
                    pass
        k = 0
        for _ in range(plan['before']):
            step()
            disturb(plan['schedule'][k] if k < len(plan['schedule']) else '')
            k += 1
        bad += d.transition(w)
        disturb(plan['schedule'][k] if k < len(plan['schedule']) else '')
        for _ in range(plan['after']):
            step()
            k += 1
            disturb(plan['schedule'][k] if k < len(plan['schedule']) else '')
        if not bad:
            c = continued(d, plan['after'])
            if c:
                bad.append(c)
            e = scen.differ(want, d.s.fingerprint())
            if e:
                bad.append(violation('disturbed', 'with {} the history differs: {}'.format(sorted(set(happened)), e)))
            if folder and not bad:
                d.s.u.export()
                problem = Tables(d.s, folder).complete()
                if problem:
                    bad.append(violation('export', problem))
    w.count('steps', plan['before'] + plan['after'])
    w.count('nontrivial', 1)
    w.digest = scen.digest([want, happened])
    return bad[:3]
