PROPERTY = 'C11'
EDITS = [('interactions/four_particle/cpp/integral.cpp', """        const particle_t &specie = reaction[k].specie;
        f[k] = distribution_interpolation(specie, p[k]);
""", """        const particle_t &specie = reaction[k].specie;
        if (k == 0) {
            // The first momentum stays the same during the integration
            static const dbl *last_values = nullptr;
            static dbl last_p = -1., last_f = 0.;
            if (p[0] != last_p || specie.grid.distribution.data() != last_values) {
                last_values = specie.grid.distribution.data();
                last_p = p[0];
                last_f = distribution_interpolation(specie, p[0]);
            }
            f[0] = last_f;
            continue;
        }
        f[k] = distribution_interpolation(specie, p[k]);
""")]
NEEDS = 'two threads working on different momenta, one of them preempted while it fills the shared value'
BREAKS = 'the distribution function at the first momentum is remembered in one place for all threads: collision integrals depend on their timing'
FILES = ['shim', 'tools/plant/nat.py']
DEMO = """
from nat import *
m = load('four', True)
grid = [15. * i / 12 for i in range(13)]
r = species(m, '', [0., .5, .5, 0.], [-1, -1, 1, 1], grid, pert=.5)
Ms = [m.M_t([0, 1, 2, 3], 1., 0., 0.)]
ps = grid[1:7]
configure()
want = [m.integration([p], 0., 15., 0., 15., 15., r, Ms, .01, 0)[0] for p in ps]
for seed in range(30):
    configure(seed=seed, threads=4, switch_ppm=100000, mem_period=50)
    got = m.integration(ps, 0., 15., 0., 15., 15., r, Ms, .01, 0)
    ok(all(abs(a - b) <= 1e-9 * abs(b) for a, b in zip(got, want)), 'threads disturb each other (schedule {}): {} against {}'.format(seed, got, want))
"""
