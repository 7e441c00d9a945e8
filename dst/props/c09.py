"""A run split into segments equals the uninterrupted run."""
import os

from dst import scen, stub_integral
from dst.props.common import arm_clock, rand_clock, read, violation

RUNS = {'quick': 800, 'thorough': 16000}
PROFILES = ['small', 'gauss']
PROFILE_WEIGHTS = [5, 1]
RULE = ('one run = one seeded setup computed in one piece and again cut at 1-7 seeded temperatures (some of them empty or repeated), each segment with '
        'or without an export, in a folder or without one; non-trivial: at least one cut fell between two steps; distinct by history and rows at the cuts')
MUST_REACH = ['segments', 'empty_segments', 'single_step_segments', 'intermediate_exports', 'cut_at_decoupling']


def make_plan(rng, tier):
    spec = scen.random_spec(rng, steps=(2, 16), sterile=.1, decay=.15, dust=True)
    cuts = [rng.random() for _ in range(rng.randint(1, 7))]
    if rng.random() < .3:
        cuts.append(rng.choice(cuts))
    if rng.random() < .3:
        cuts.append(0.)
    if rng.random() < .3:
        cuts.append(1.)
    if rng.random() < .15:
        cuts = [i / 16. for i in range(17)]
    if rng.random() < .85:
        cuts.sort()
    return {'spec': spec, 'cuts': cuts, 'exports': [rng.random() < .4 for _ in cuts], 'clock': rand_clock(rng), 'rate': rng.choice([0, .5, 1e9]),
            'folder': rng.random() < .6, 'freq': rng.choice([1, 2, 3, 5, 100])}


FILES = ('evolution.txt', 'kawano.txt', 's4.dat')


def execute(plan, w):
    import sys
    bad = []
    arm_clock(w, plan['clock'])
    T0, T1 = plan['spec']['T0'], plan['spec']['T1']
    spec = dict(plan['spec'], export_freq=plan['freq'])
    fa, fb = (w.path('a'), w.path('b')) if plan['folder'] else (None, None)
    ref = scen.Setup(spec, folder=fa, log_rate=plan['rate'], world=w)
    scen.stable(ref, lambda: ref.run(export=True))
    want = ref.fingerprint()
    sys.stdout = w.terminal
    stub_integral.ctl.reset()
    s = scen.Setup(spec, folder=fb, log_rate=plan['rate'], world=w)
    rows = [0]
    for n, (c, e) in enumerate(list(zip(plan['cuts'], plan['exports'])) + [(1., True)]):
        s.run(T0 + (T1 - T0) * c, export=e, init_time=n == 0)
        k = len(s.u.data)
        w.count('segments')
        w.count('intermediate_exports', int(e and c < 1.))
        w.count('empty_segments', int(n > 0 and k == rows[-1]))
        w.count('single_step_segments', int(n > 0 and k == rows[-1] + 1))
        rows.append(k)
    w.count('cut_at_decoupling', int(any(getattr(p, 'oldeq', False) and not p.in_equilibrium for p in s.u.particles)))
    d = scen.differ(want, s.fingerprint())
    if d:
        bad.append(violation('result differs', 'rows at the cuts {}: {}'.format(rows, d)))
    xs = want['history']['x']
    if len(set(xs)) != len(xs):
        bad.append(violation('repeated row', 'the uninterrupted run has a repeated scale factor'))
    if fa and not bad:
        for f in FILES:
            if read(os.path.join(fa, f)) != read(os.path.join(fb, f)):
                bad.append(violation('exported table differs', '{} differs, rows at the cuts {}'.format(f, rows)))
    w.count('steps', 2 * (len(xs) - 1))
    w.count('nontrivial', int(any(1 < r < len(xs) for r in rows)))
    w.digest = scen.digest([want, rows, plan['exports'], plan['folder']])
    return bad
