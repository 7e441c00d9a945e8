"""Builds universes from plain JSON descriptions and drives them through their public interface."""
import hashlib
import os
import sys

import numpy

from dst import stub_integral

DOWN = 1. - 1e-9


class Unstable(Exception):
    """ the undisturbed computation itself ends with a report of numerical instability: nothing to compare with """


def stable(s, work):
    try:
        return work()
    except SystemExit:
        if s.u.params.T > 0:
            raise
        raise Unstable()


class Setup(object):
    """ One universe of a simulated run """

    def __init__(self, spec, folder=None, log_rate=None, world=None):
        from evolution import Universe
        from particles import Particle
        from library.SM import particles as SMP, interactions as SMI
        from library.NuMSM import particles as NuP, interactions as NuI
        from common import Params, UNITS, CONST, LinearSpacedGrid, LogSpacedGrid, HeuristicGrid
        self.spec, self.folder, self.world, self.UNITS = spec, folder, world, UNITS
        MeV = UNITS.MeV
        flags(spec)
        kw = {'T': spec['T0'] * MeV}
        if spec.get('mode', 'log') == 'log':
            kw['dy'] = spec['dy']
        else:
            kw['dx'] = spec['dx'] * MeV
        params = Params(**kw)
        args = {} if log_rate is None else {'max_log_rate': log_rate}
        self.u = u = Universe(folder=folder, params=params, **args)
        if spec.get('export_freq'):
            u.export_freq = spec['export_freq']

        def grid():
            if spec.get('grid') == 'log':
                return LogSpacedGrid(MOMENTUM_SAMPLES=spec.get('samples', 17), MAX_MOMENTUM=spec.get('pmax', 20.) * MeV)
            return LinearSpacedGrid(MOMENTUM_SAMPLES=spec.get('samples', 17), MAX_MOMENTUM=spec.get('pmax', 20.) * MeV)
        g = grid()
        self.p = {}
        from common import statistics as ST
        for kind, extra in spec['particles']:
            base = {
                'photon': lambda: SMP.photon,
                'electron': lambda: SMP.leptons.electron,
                'nu_e': lambda: SMP.leptons.neutrino_e,
                'nu_mu': lambda: SMP.leptons.neutrino_mu,
                'nu_tau': lambda: SMP.leptons.neutrino_tau,
                'muon': lambda: SMP.leptons.muon,
                'sterile': lambda: NuP.dirac_sterile_neutrino(mass=extra.get('mass', 33.9) * MeV,
                                                              mixing_angle=extra.get('theta', 1e-2)),
                'up': lambda: SMP.quarks.up, 'down': lambda: SMP.quarks.down,
                'strange': lambda: SMP.quarks.strange, 'charm': lambda: SMP.quarks.charm,
                'gluon': lambda: SMP.gluon,
                'pi0': lambda: SMP.hadrons.neutral_pion, 'pi+': lambda: SMP.hadrons.charged_pion,
                'rho0': lambda: SMP.hadrons.neutral_rho, 'rho+': lambda: SMP.hadrons.charged_rho,
                'eta': lambda: SMP.hadrons.eta, 'omega': lambda: SMP.hadrons.omega, 'phi': lambda: SMP.hadrons.phi,
                'K+': lambda: SMP.hadrons.charged_kaon, 'KL': lambda: SMP.hadrons.kaon_long, 'KS': lambda: SMP.hadrons.kaon_short,
                'eta_prime': lambda: SMP.hadrons.eta_prime, 'tau': lambda: SMP.leptons.tau,
                'heavy': lambda: {'name': 'Heavy ' + str(extra.get('n', 0)), 'symbol': 'X' + str(extra.get('n', 0)),
                                  'statistics': ST.BOSON if extra.get('boson') else ST.FERMION, 'dof': extra.get('dof', 2),
                                  'majorana': False, 'Q': 0, 'flavour': None},
            }[kind]()
            d = dict(base)
            if extra.get('grid') == 'heuristic':
                d['grid'] = HeuristicGrid(d['mass'], extra.get('tau', 1.) * UNITS.s, b=extra.get('b', 30))
            elif extra.get('samples'):
                d['grid'] = LinearSpacedGrid(MOMENTUM_SAMPLES=extra['samples'], MAX_MOMENTUM=extra['pmax'] * MeV)
            elif kind.startswith('nu') or extra.get('grid'):
                d['grid'] = g
            if 'dec' in extra:
                d['decoupling_temperature'] = extra['dec'] * MeV
            if 'mass' in extra:
                d['mass'] = extra['mass'] * MeV
            for k in extra.get('drop', []):
                d.pop(k, None)
            d.update(extra.get('set', {}))
            name = kind if kind != 'heavy' else 'heavy{}'.format(extra.get('n', 0))
            self.p[name] = Particle(**d)
        self.order = [k if k != 'heavy' else 'heavy{}'.format(e.get('n', 0)) for k, e in spec['particles']]
        u.add_particles([self.p[n] for n in self.order])
        inter = spec.get('interactions') or []
        nus = [self.p[n] for n in ('nu_e', 'nu_mu', 'nu_tau') if n in self.p]
        leps = [self.p[n] for n in ('electron',) if n in self.p]
        if 'weak' in inter and nus:
            u.interactions += SMI.neutrino_interactions(leptons=leps, neutrinos=nus)
        if 'sterile' in inter and 'sterile' in self.p:
            from collections import defaultdict
            thetas = defaultdict(float, {'electron': 1e-3, 'muon': 0., 'tau': 0.})
            u.interactions += NuI.sterile_leptons_interactions(thetas=thetas, sterile=self.p['sterile'], neutrinos=nus, leptons=leps)
        if 'heavy3' in inter and 'heavy0' in self.p:
            from interactions import CrossGeneratingInteraction
            from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
            u.interactions += [CrossGeneratingInteraction(
                name='Heavy decay', particles=((self.p['heavy0'],), (nus[0], nus[-1])),
                antiparticles=((False,), (True, False)), Ms=(ThreeParticleM(K=1e-12 * MeV**2),),
                integral_type=ThreeParticleIntegral)]
        if spec.get('decay'):
            u.interactions += decay_interactions(self.p, spec['decay'])
        if spec.get('osc'):
            u.init_oscillations(SMP.leptons.oscillations_map, tuple(nus), matter_effects=spec['osc'] == 'matter')
        if spec.get('kawano'):
            u.init_kawano(electron=self.p['electron'], neutrino=self.p['nu_e'])
        self.monitor_calls = 0
        self.monitors = []

        def monitor(universe):
            self.monitor_calls += 1
            for m in self.monitors:
                m(universe)
        if spec.get('monitor'):
            u.step_monitor = monitor

    # -- driving
    def physics(self):
        s = self.spec.get('stub') or {}
        stub_integral.ctl.k = s.get('k', 0.05)
        stub_integral.ctl.eps = s.get('eps', 0.1)
        flags(self.spec)

    def step(self, first=False, n=1):
        """ n steps through the public interface """
        self.physics()
        for i in range(n):
            self.u.evolve(self.u.params.T * DOWN, export=False, init_time=first and i == 0)

    def run(self, T=None, **kw):
        self.physics()
        return self.u.evolve((self.spec['T1'] if T is None else T) * self.UNITS.MeV, **kw)

    # -- observing
    def history(self):
        d = self.u.data
        return {c: numpy.array(d[c], dtype=float).copy() for c in d.columns}

    def kawano_history(self):
        if not self.spec.get('kawano'):
            return {}
        d = self.u.kawano_data
        return {c: numpy.array(d[c], dtype=float).copy() for c in d.columns}

    def distributions(self):
        out = {}
        for n in self.order:
            p = self.p[n]
            # in equilibrium the array is not used for anything
            out[n] = numpy.array([] if p.in_equilibrium else p._distribution, dtype=float).copy()
        return out

    def fingerprint(self):
        return {'history': hx(self.history()), 'kawano': hx(self.kawano_history()), 'distributions': hx(self.distributions())}


def flags(spec):
    if spec.get('mode', 'log') == 'log':
        os.environ.pop('LOGARITHMIC_TIMESTEP', None)
    else:
        os.environ['LOGARITHMIC_TIMESTEP'] = ''
    for k in ('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION', 'NORMAL_HIERARCHY_NEUTRINOS', 'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES',
              'REGIME_SWITCHING_FACTOR', 'FOUR_PARTICLE_GRID_RESOLUTION'):
        if k in (spec.get('env') or {}):
            os.environ[k] = spec['env'][k]
        else:
            os.environ.pop(k, None)


def hx(d):
    """ exact, comparable form """
    return {k: [float(x).hex() for x in numpy.ravel(v)] for k, v in d.items()}


def differ(a, b):
    """ first difference between two fingerprints, or None """
    for part in sorted(set(a) | set(b)):
        x, y = a.get(part), b.get(part)
        if x == y:
            continue
        if x is None or y is None:
            return '{}: present on one side only'.format(part)
        for k in sorted(set(x) | set(y), key=str):
            p, q = x.get(k), y.get(k)
            if p == q:
                continue
            if p is None or q is None:
                return '{}[{}]: present on one side only'.format(part, k)
            if len(p) != len(q):
                return '{}[{}]: {} values against {}'.format(part, k, len(p), len(q))
            for i, (s, t) in enumerate(zip(p, q)):
                if s != t:
                    return '{}[{}][{}]: {!r} against {!r}'.format(part, k, i, float.fromhex(s), float.fromhex(t))
    return None


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------- random setups
def random_spec(rng, kawano=None, steps=(4, 18), interactions=True, lin=True, env=True, heavy=True, sterile=False, osc=True, decay=0., dust=False):
    """ A small but real setup.  Swarm style: features come and go """
    spec = {}
    T0 = rng.choice([2., 3., 5., 8., 10.5, 12., 20.])
    n = rng.randint(*steps)
    dy = rng.choice([0.01, 0.02, 0.05, 0.1])
    if lin and rng.random() < .2:
        spec['mode'] = 'lin'
        # x starts at m/T0 * 1 MeV
        spec['dx'] = dy / T0
    else:
        spec['mode'] = 'log'
        spec['dy'] = dy
    spec['T0'] = T0
    spec['T1'] = T0 * (1. + dy) ** (-(n - .5))
    if kawano is None:
        kawano = rng.random() < .5
    spec['kawano'] = bool(kawano)
    parts = [['photon', {}], ['electron', {}]]
    for nu in ('nu_e', 'nu_mu', 'nu_tau'):
        if rng.random() < .6 or (nu == 'nu_e' and kawano):
            d = {}
            r = rng.random()
            if r < .4:
                d['dec'] = T0 * (1. + dy) ** (-rng.randint(0, n)) * 1.0001   # decouples within the run
            elif r < .6:
                d['dec'] = T0 * 1.5
            elif r < .8:
                d['dec'] = T0 * .01
            parts.append([nu, d])
    if heavy and rng.random() < .3:
        parts.append(['heavy', {'n': 0, 'mass': rng.choice([0.1, 1., 5., 30.]), 'dec': T0 * rng.choice([0.001, .7, .9, 2.]),
                                'boson': rng.random() < .5, 'dof': rng.choice([1, 2, 3]), 'grid': 1}])
    if sterile and rng.random() < sterile:
        parts.append(['sterile', {'mass': rng.choice([10., 33.9, 100.]), 'theta': 1e-2, 'grid': 1, 'dec': T0 * rng.choice([.8, 2.])}])
    rng.shuffle(parts)
    spec['particles'] = parts
    names = [p[0] for p in parts]
    spec['interactions'] = []
    if interactions and any(x.startswith('nu') for x in names) and rng.random() < .8:
        spec['interactions'].append('weak')
    if 'sterile' in names and any(x.startswith('nu') for x in names):
        spec['interactions'].append('sterile')
    if 'heavy' in names and sum(x.startswith('nu') for x in names) >= 2 and rng.random() < .6:
        spec['interactions'].append('heavy3')
    if osc and sum(x.startswith('nu') for x in names) == 3 and rng.random() < .5:
        spec['osc'] = rng.choice(['vacuum', 'matter'])
    spec['samples'] = rng.choice([9, 13, 17, 25])
    spec['pmax'] = rng.choice([10., 20., 40.])
    if rng.random() < .2:
        spec['grid'] = 'log'
    spec['stub'] = {'k': rng.choice([0.01, 0.05, 0.3]), 'eps': rng.choice([0., 0.1, 0.5])}
    spec['env'] = {}
    if env and rng.random() < .25:
        spec['env']['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = ''
    if env and rng.random() < .1:
        spec['env']['NORMAL_HIERARCHY_NEUTRINOS'] = ''
    spec['steps'] = n
    if env and dust and rng.random() < .1:
        spec['env']['FOUR_PARTICLE_GRID_RESOLUTION'] = rng.choice(['1.7', '3', '8'])
    if dust:
        if rng.random() < .15:
            spec['particles'].append(['heavy', {'n': 1, 'mass': T0 * rng.choice([20., 900., 3000.]), 'dof': 2, 'boson': rng.random() < .5}])
        if env and rng.random() < .2:
            spec['env']['REGIME_SWITCHING_FACTOR'] = rng.choice(['2', '5', '15'])
    if decay and rng.random() < decay:
        add_decay(rng, spec)
    return spec


# sterile neutrinos decaying into unstable particles: {name: (mass of the sterile, species, primary interactions)}
CHAINS = {
    'muon': (130., ['electron', 'muon', 'nu_e', 'nu_mu'], 'leptons'),
    'light': (60., ['electron', 'nu_e', 'nu_mu', 'nu_tau'], 'leptons'),
    'pi0': (150., ['pi0', 'nu_e'], 'hadrons'),
    'pi+': (160., ['electron', 'muon', 'pi+', 'nu_e', 'nu_mu'], 'hadrons'),
    'rho0': (850., ['electron', 'muon', 'rho0', 'pi+', 'nu_e', 'nu_mu'], 'hadrons'),
    'rho+': (850., ['electron', 'muon', 'rho+', 'pi+', 'pi0', 'nu_e', 'nu_mu'], 'hadrons'),
    'omega': (850., ['electron', 'muon', 'omega', 'pi+', 'pi0', 'nu_e', 'nu_mu'], 'hadrons'),
    'eta': (600., ['electron', 'muon', 'eta', 'pi+', 'pi0', 'nu_e', 'nu_mu'], 'hadrons'),
}
UNSTABLE = ('muon', 'tau', 'pi0', 'pi+', 'rho0', 'rho+', 'omega', 'eta', 'phi', 'K+', 'KL', 'KS', 'eta_prime')


def add_decay(rng, spec, chain=None):
    """ turn a setup into one with a decaying sterile neutrino and unstable decay products """
    chain = chain or rng.choice(sorted(CHAINS))
    mass, species, how = CHAINS[chain]
    T0 = spec['T0']
    have = {p[0]: p for p in spec['particles']}
    for name in species:
        if name not in have:
            spec['particles'].append([name, {}])
            have[name] = spec['particles'][-1]
        extra = have[name][1]
        extra['grid'] = 1
        if name in UNSTABLE and rng.random() < .6:
            extra.setdefault('set', {})['thermal_dyn'] = False
        elif name in UNSTABLE:
            extra['dec'] = T0 * rng.choice([.8, .95, 2.])
        elif name.startswith('nu') and rng.random() < .5:
            extra['dec'] = T0 * rng.choice([.9, 1.5])
    if 'sterile' not in have:
        spec['particles'].append(['sterile', {}])
        have['sterile'] = spec['particles'][-1]
    have['sterile'][1].update({'mass': mass * rng.choice([1., 1.1]), 'grid': 1, 'dec': T0 * rng.choice([.9, 1.5, 2.])})
    rng.shuffle(spec['particles'])
    vac = rng.random() < .3
    spec['decay'] = {'how': how, 'theta': rng.choice([1e-3, 1e-2]), 'muon_dec': rng.random() < .5,
                     'kind': rng.choice(['F_f_vacuum_decay', 'F_1_vacuum_decay', 'Full_vacuum_decay'] if vac else ['Full', 'Full', 'F_1', 'F_f', None])}
    spec['interactions'] = [i for i in spec['interactions'] if i not in ('heavy3', 'sterile')]
    return spec


def decay_interactions(p, d):
    from collections import defaultdict
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    from library.NuMSM import interactions as NuI
    kind = getattr(K, d['kind']) if d['kind'] else None
    thetas = defaultdict(float, {'electron': d['theta'], 'muon': d['theta'] if d.get('both') else 0.})
    nus = [p[n] for n in ('nu_e', 'nu_mu', 'nu_tau') if n in p]
    leps = [p[n] for n in ('electron', 'muon', 'tau') if n in p]
    mesons = [p[n] for n in UNSTABLE if n in p and n not in ('muon', 'tau')]
    if d['how'] == 'leptons':
        primary = NuI.sterile_leptons_interactions(thetas=thetas, sterile=p['sterile'], neutrinos=nus, leptons=leps, kind=kind)
    else:
        primary = NuI.sterile_hadrons_interactions(thetas=thetas, sterile=p['sterile'], neutrinos=nus, leptons=leps, mesons=mesons, kind=kind)
    secondary = NuI.interactions_decay_products(interactions_primary=[primary], muon_dec=d.get('muon_dec') and 'muon' in p,
                                                neutrinos=nus, leptons=leps, mesons=mesons or None, photon=[p['photon']], kind=kind)
    return list(primary) + list(secondary)


def simplify_spec(spec):
    """ simpler variants of a setup, for the minimiser """
    import copy

    def but(**kw):
        s = copy.deepcopy(spec)
        for k, v in kw.items():
            if v is None:
                s.pop(k, None)
            else:
                s[k] = v
        return s
    if spec.get('env'):
        yield but(env={})
    if spec.get('osc'):
        yield but(osc=None)
    if spec.get('decay'):
        yield but(decay=None)
    if spec.get('interactions'):
        yield but(interactions=[])
        for i in spec['interactions']:
            yield but(interactions=[j for j in spec['interactions'] if j != i])
    if spec.get('kawano'):
        yield but(kawano=False)
    for i, (k, e) in enumerate(spec['particles']):
        if k in ('photon',):
            continue
        if spec.get('kawano') and k in ('electron', 'nu_e'):
            continue
        s = but(particles=[p for j, p in enumerate(spec['particles']) if j != i])
        if k.startswith('nu'):
            s.pop('osc', None)
        s.pop('decay', None)
        if k.startswith('nu') or k in ('heavy', 'sterile'):
            s['interactions'] = [x for x in s.get('interactions', []) if x == 'weak' and any(q[0].startswith('nu') for q in s['particles'])]
        yield s
    if spec.get('grid'):
        yield but(grid=None)
    if spec.get('steps', 0) > 2 and 'dy' in spec:
        for n in (2, spec['steps'] // 2, spec['steps'] - 1):
            if 2 <= n < spec['steps']:
                yield but(steps=n, T1=spec['T0'] * (1 + spec['dy']) ** (-(n - .5)))


def sibling(rng, spec):
    """ nearly the same setup: what a cache with too small a key takes for the same """
    import copy
    s = copy.deepcopy(spec)
    for _ in range(rng.choice([1, 1, 2])):
        what = rng.choice(['pmax', 'samples', 'grid', 'T0', 'step', 'dec', 'stub', 'osc', 'theta', 'mass', 'drop', 'kawano', 'kind'])
        if what == 'pmax':
            s['pmax'] = s['pmax'] * rng.choice([.6, 2.])
        elif what == 'samples':
            s['samples'] += rng.choice([-1, 1, 4])
        elif what == 'grid':
            s['grid'] = None if s.get('grid') else 'log'
        elif what == 'T0':
            f = rng.choice([.7, 1.3])
            s['T0'], s['T1'] = s['T0'] * f, s['T1'] * f
        elif what == 'step':
            k = 'dy' if s.get('mode', 'log') == 'log' else 'dx'
            s[k] = s[k] * rng.choice([.5, 1.5])
        elif what == 'stub':
            s['stub'] = dict(s['stub'], eps=s['stub']['eps'] + .2)
        elif what == 'osc':
            if s.get('osc'):
                s['osc'] = rng.choice([None, 'matter', 'vacuum'])
        elif what == 'kawano':
            s['kawano'] = False
        elif what == 'drop':
            gone = [p for p in s['particles'] if p[0] not in ('photon', 'electron')]
            if gone and not s['kawano']:
                gone = rng.choice(gone)
                s['particles'].remove(gone)
                s['interactions'] = [i for i in s['interactions'] if i == 'weak']
                s['osc'] = None
                s.pop('decay', None)
                if not any(p[0].startswith('nu') for p in s['particles']):
                    s['interactions'] = []
        else:
            for p in s['particles']:
                if what == 'dec' and p[1].get('dec'):
                    p[1]['dec'] *= rng.choice([.8, 1.2])
                elif what in ('theta', 'mass') and what in p[1]:
                    p[1][what] = p[1][what] * 1.5
                elif what == 'theta' and p[0] == 'sterile':
                    p[1]['theta'] = p[1].get('theta', 1e-2) * 2
                elif what == 'kind' and p[0] == 'heavy':
                    p[1]['boson'] = not p[1].get('boson')
                    p[1]['dof'] = 4 - p[1].get('dof', 2) or 1
    return s
