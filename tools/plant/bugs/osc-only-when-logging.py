PROPERTY = 'C01'
EDITS = [
    ('evolution.py',
     '        if self.oscillations:\n            self.oscillation_parameters()\n            pattern,',
     '        if self.oscillations:\n            # The mixing changes slowly\n            if self.log_throttler.output:\n                self.oscillation_parameters()\n            pattern,'),
]
NEEDS = 'neutrino oscillations in matter and a step made while no progress line is due (any logging interval longer than a step)'
BREAKS = 'the mixing is recomputed only in steps that are reported, so results depend on the logging rate and the speed of the machine'
DEMO = r'''
from bbn import *
res = []
for rate in (0, 1e9):
    u = universe(T=3., nus=('neutrino_e', 'neutrino_mu', 'neutrino_tau'), dy=.1, rate=rate)
    u.init_oscillations(SMP.leptons.oscillations_map, tuple(u.p[n] for n in ('neutrino_e', 'neutrino_mu', 'neutrino_tau')), matter_effects=True)
    # make the matter effects matter at these temperatures
    steps(u, 6, first=True)
    res.append((history(u), [[float(x).hex() for x in u.p[n]._distribution] for n in ('neutrino_e', 'neutrino_mu')]))
ok(res[0] == res[1], 'the result depends on how often progress lines are printed')
'''
