From acd991611915ddd74447538498a0cc328fe82091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 01/27] fix: drop imports of integrator names that do not exist

particles/__init__.py imported backward_differentiation, heun_method and
MAX_BACKWARD_DIFF_ORDER, which common.integrators does not define, so neither
particles nor evolution could be imported. None of them is used.
---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From b2465f11d3acc5b3d78832a760c7189fc3fd2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 02/27] fix: use the Adams-Moulton increment as the collision
 integral

adams_moulton_solver() returns the new value of the function, but its result was
used as the rate of change: every step added the whole new distribution times the
step size to the old one, so the distribution of a decoupled species changed (and
kept growing) even with vanishing collision terms.
---
 particles/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..115f777 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,9 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # The solver returns the new value of the function; the collision integral is the
+            # average rate of change over the step
+            I_coll = adams_moulton_solver(y=0., fs=fs, A=AB, B=B, h=self.params.h) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From 69979d74404ed31252f748c48d78ba2e3d487383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 03/27] fix: pass an integer number of samples to linspace

On grids finer than FOUR_PARTICLE_GRID_RESOLUTION every four-particle integration
failed with a TypeError: numpy does not accept a float number of samples.
---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..47233e8 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From 109ddfafe51ab4dc55321e4e5e6b6f4c964b4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 04/27] fix: pass the integral to reaction_type in
 Icoll_fast_decay

reaction_type() takes the integral, not its reaction tuple: any fast decaying
particle failed with an AttributeError at its first collision integration.
---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 47233e8..7321ab3 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From 3500281b6648b1afc89fb9acd1d0e780b944a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 05/27] fix: compare the scaling result with False in the
 four-particle integral

kinematics.scaling() returns either False or an array; the truth value of the array
is ambiguous, so all interaction kinds but Full raised a ValueError.
---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From 41201c6d00652363da76b559bb4d314e03f8ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 06/27] fix: give every Universe its own history

Universe.data was a class attribute: a second universe in the same process appended
to the history of the first one and extrapolated its temperature from the other
universe's derivatives.
---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..846962b 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -66,6 +56,18 @@ class Universe(object):
                 shutil.rmtree(folder)
             self.init_log(folder=folder)
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.fraction = 0
 
         self.step = 1
-- 
2.43.0


From 11f4b82e61160cdc6133b53c1201f7a0bb0f1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 07/27] fix: compute baryonic rates with the particles of this
 universe

The particles given to init_kawano() are kept in the kawano module; with two
universes in one process the rates of both came from the last one initialized.
---
 evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evolution.py b/evolution.py
index 846962b..464b90d 100755
--- a/evolution.py
+++ b/evolution.py
@@ -73,6 +73,7 @@ class Universe(object):
         self.step = 1
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
+        self.kawano_particles = kwargs
         kawano.init_kawano(**kwargs)
         if self.folder:
             self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
@@ -326,6 +327,8 @@ class Universe(object):
             #     t[s]         x    Tg[10^9K]   dTg/dt[10^9K/s] rho_tot[g cm^-3]     H[s^-1]
             # n nue->p e  p e->n nue  n->p e nue  p e nue->n  n e->p nue  p nue->n e
 
+            # The particles are global to the module: another universe might have replaced them
+            self.kawano.init_kawano(**self.kawano_particles)
             rates = self.kawano.baryonic_rates(self.params.a)
 
             if environment.get('LOGARITHMIC_TIMESTEP'):
-- 
2.43.0


From d9294ff0a3952c95e8203a63550c793db48282f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 08/27] fix: keep the HNL energy in the parameters of the
 universe

It was kept in os.environ, so that a universe with heavy neutral leptons changed the
momentum cut-off of all other universes in the process (and of later runs).
---
 common/__init__.py   |  3 +++
 common/kinematics.py | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..f9ea64c 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -95,6 +95,9 @@ class Params(object):
 
     h = None
 
+    # Energy of the most energetic heavy neutral leptons, if there are any
+    HNL_energy = None
+
     def __init__(self, **kwargs):
         """ ## Parameters
             Master object carrying the cosmological state of the system and initial conditions """
diff --git a/common/kinematics.py b/common/kinematics.py
index 7321ab3..1ada236 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -92,8 +92,8 @@ def four_particle_grid_cutoff_scattering(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM #3 * particle.params.T
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
@@ -111,8 +111,8 @@ def four_particle_grid_cutoff_decay(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = particle.grid.MAX_MOMENTUM
@@ -346,7 +346,7 @@ def CollisionMultiplier3p(interaction):
 
 def store_energy(interaction):
     if interaction.particle.name == 'Sterile neutrino (Dirac)':
-        os.environ['HNL_ENERGY'] = str(np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2))
+        interaction.particle.params.HNL_energy = np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2)
 
 def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
-- 
2.43.0


From adef0e9edf7706f9b589582257d6b8baac09664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 09/27] fix: replace the exported tables atomically

evolution.txt and kawano.txt were truncated and rewritten in place every
`export_freq` steps: a crash or a full disk during the export destroyed the last
good copy, and a program following the file could read half a table.
---
 common/utils.py | 13 +++++++++++++
 evolution.py    |  8 ++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..009e0ef 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -122,6 +122,19 @@ def ensure_dir(*chunks):
     return dir
 
 
+@contextlib.contextmanager
+def atomic_open(path, mode='wb'):
+    """ Open a file for writing so that `path` is replaced only when all data is on the disk.
+        Anyone reading `path` sees either the old or the new content, even if the program or the
+        machine crashes in the middle. """
+    temporary = path + '.tmp'
+    with open(temporary, mode) as f:
+        yield f
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(temporary, path)
+
+
 class reaction_type(object):
     def __init__(self, interaction):
         self.sumsides = sum([item.side for item in interaction.reaction])
diff --git a/evolution.py b/evolution.py
index 464b90d..9bab1f4 100755
--- a/evolution.py
+++ b/evolution.py
@@ -141,10 +141,10 @@ class Universe(object):
                 self.save()
                 self.step += 1
                 if self.folder and self.step % self.export_freq == 0:
-                    with open(os.path.join(self.folder, "evolution.txt"), "wb") as f:
+                    with utils.atomic_open(os.path.join(self.folder, "evolution.txt")) as f:
                         self.data.savetxt(f)
                     if self.kawano:
-                        with open(os.path.join(self.folder, "kawano.txt"), "wb") as f:
+                        with utils.atomic_open(os.path.join(self.folder, "kawano.txt")) as f:
                             self.kawano_data.savetxt(f)
             except KeyboardInterrupt:
                 print("\nKeyboard interrupt!")
@@ -173,12 +173,12 @@ class Universe(object):
                 self.kawano_log.close()
                 print(kawano.run(self.folder))
 
-                with open(os.path.join(self.folder, "kawano.txt"), "wb") as f:
+                with utils.atomic_open(os.path.join(self.folder, "kawano.txt")) as f:
                     self.kawano_data.savetxt(f)
 
             print("Execution log saved to file {}".format(self.logfile))
 
-            with open(os.path.join(self.folder, "evolution.txt"), "wb") as f:
+            with utils.atomic_open(os.path.join(self.folder, "evolution.txt")) as f:
                 self.data.savetxt(f)
 
     def make_step(self):
-- 
2.43.0


From ee313cb2e1b48dc9a9dfd835ffa5a23be38e261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 10/27] fix: save the results before running KAWANO

export() ran the external KAWANO code first: if it was missing or failed, neither
kawano.txt nor the final evolution.txt was written and the computation was lost.
---
 evolution.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/evolution.py b/evolution.py
index 9bab1f4..3488297 100755
--- a/evolution.py
+++ b/evolution.py
@@ -168,18 +168,20 @@ class Universe(object):
         print("\n")
 
         if self.folder:
+            print("Execution log saved to file {}".format(self.logfile))
+
+            with utils.atomic_open(os.path.join(self.folder, "evolution.txt")) as f:
+                self.data.savetxt(f)
+
             if self.kawano:
 
                 self.kawano_log.close()
-                print(kawano.run(self.folder))
 
                 with utils.atomic_open(os.path.join(self.folder, "kawano.txt")) as f:
                     self.kawano_data.savetxt(f)
 
-            print("Execution log saved to file {}".format(self.logfile))
-
-            with utils.atomic_open(os.path.join(self.folder, "evolution.txt")) as f:
-                self.data.savetxt(f)
+                # External program: it might be missing or fail, our results are already saved
+                print(kawano.run(self.folder))
 
     def make_step(self):
         self.integrand(self.params.x, self.params.aT)
-- 
2.43.0


From f1831a00ae4e450ba939d6196b2e64062b88c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 11/27] fix: do not report stale or partial KAWANO output

If KAWANO died, kawano.run() returned whatever output file was in the folder: the
one of a previous run, or the part written before the program was killed.
---
 kawano.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kawano.py b/kawano.py
index e4d6c9a..dfc457b 100755
--- a/kawano.py
+++ b/kawano.py
@@ -31,6 +31,10 @@ def init_kawano(electron=None, neutrino=None):
 
 
 def run(data_folder, input="s4.dat", output="kawano_output.dat"):
+    # Do not mistake the output of some previous run for the result of this one
+    if os.path.exists(os.path.join(data_folder, output)):
+        os.remove(os.path.join(data_folder, output))
+
     p = Popen(utils.getenv('KAWANO', 'KAWANO/kawano_noneq'), stdin=PIPE, env={
         "INPUT": os.path.join(data_folder, input),
         "OUTPUT": os.path.join(data_folder, output)
@@ -53,6 +57,8 @@ def run(data_folder, input="s4.dat", output="kawano_output.dat"):
         # ...
         "", "", "", ""
     ]), 'utf-8'))
+    if p.returncode < 0:
+        raise RuntimeError("KAWANO was killed by signal {}".format(-p.returncode))
     with open(os.path.join(data_folder, output), "r") as kawano_output:
         return kawano_output.read()
 
-- 
2.43.0


From 1bbcf82ed586e0a61373e81571925d16f8e71a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 12/27] fix: do not record the current state twice when the
 evolution is continued

evolve() appended a copy of the last row each time it was called. The copy entered
the multistep temperature integration, so that a computation split in two evolve()
calls gave a different result.
---
 evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 3488297..9559c1b 100755
--- a/evolution.py
+++ b/evolution.py
@@ -132,7 +132,10 @@ class Universe(object):
         if self.params.rho is None:
 #            self.update_particles()
             self.params.update(self.total_energy_density(), self.total_entropy())
-        self.save_params()
+        # The current state is already there if the computation is being continued
+        if not len(self.data) or (self.data['x'][-1] != self.params.x
+                                  or self.data['aT'][-1] != self.params.aT):
+            self.save_params()
 
         while self.params.T > T_final:
             try:
-- 
2.43.0


From cf41ba45d0f0568922ce5b84aed4ebf1eb4d56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 13/27] fix: leave the initial row out of the temperature
 derivatives history

The first row is saved before anything is computed and holds a zero derivative. The
Adams-Bashforth correction used it as a real one, so that the first steps were off
by up to 50% of the temperature increment.
---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 9559c1b..13fbde7 100755
--- a/evolution.py
+++ b/evolution.py
@@ -193,7 +193,8 @@ class Universe(object):
             self.step_monitor(self)
 
         if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
-            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
+            # No derivative is known for the initial state in the first row
+            fs = (list(self.data['fraction'][1:][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
 
             self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
         else:
-- 
2.43.0


From b9594917844e954832d7beb5fafb774767276161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 14/27] fix: forget the collision integrals of a failed step

When the integration failed, the integrals collected for the step stayed on the
particles, and a repeated step counted every one of them twice.
---
 evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evolution.py b/evolution.py
index 13fbde7..49af771 100755
--- a/evolution.py
+++ b/evolution.py
@@ -231,6 +231,10 @@ class Universe(object):
             each `Interaction` object populates `Particle.collision_integrals` array with \
             currently active `Integral` objects.
         """
+        # Something might be left from an interrupted step
+        for particle in self.particles:
+            particle.collision_integrals = []
+
         for interaction in self.interactions:
             interaction.initialize()
 
-- 
2.43.0


From 6c9539a4269b6c4a7e36af48d3640a18bb36164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 15/27] fix: restore numpy print options when the body of
 printoptions() fails

---
 common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 009e0ef..a2affa8 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -95,8 +95,10 @@ class benchmark(object):
 def printoptions(*args, **kwargs):
     original = numpy.get_printoptions()
     numpy.set_printoptions(*args, **kwargs)
-    yield
-    numpy.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        numpy.set_printoptions(**original)
 
 
 def getenv(var, default=None):
-- 
2.43.0


From 7a026acecdea1c9ae21c6409a7464dd2081dc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 16/27] fix: keep logging after the system clock is set back

The throttler waited for the clock to get to where it was: the program was silent for
as long as the clock was set back (hours, for a time zone or NTP correction).
---
 common/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index a2affa8..ef0d899 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -36,7 +36,8 @@ class Throttler(object):
     def update(self):
         curr_time = time.time()
 
-        if curr_time - self.clock < self.rate:
+        # The system clock might be set back
+        if 0 <= curr_time - self.clock < self.rate:
             self.output = False
             return False
 
-- 
2.43.0


From 9973596e0be0b4ee982092696ca5b252831d1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 17/27] fix: index and truncate the dynamic arrays within their
 length

Negative indices of DynamicRecArray addressed garbage past the end, any other index
could return rows that are not there. truncate() removed an unused row of the buffer
instead of the last record (running out of it if the buffer was full), and made the
length of an empty array negative.
---
 common/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index ef0d899..37ab4dc 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -223,7 +223,8 @@ class Dynamic2DArray(object):
         return self._data[:self.length]
 
     def truncate(self):
-        self._data = numpy.delete(self._data, self.length + 1, axis=0)
+        if self.length == 0:
+            raise IndexError("truncate from an empty array")
         self.length -= 1
 
     def savetxt(self, f):
@@ -263,10 +264,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self._data[:self.length][int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
@@ -302,7 +300,8 @@ class DynamicRecArray(object):
         return '\t'.join(heading)
 
     def truncate(self):
-        self._data = numpy.delete(self._data, self.length + 1, axis=0)
+        if self.length == 0:
+            raise IndexError("truncate from an empty array")
         self.length -= 1
 
     def savetxt(self, f):
-- 
2.43.0


From 0d7113fdaf630393501f7235e543b812946f8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 18/27] fix: do not carry the integration bound over to other
 momenta

In scattering reactions the upper bound `max_1`, once raised for some momentum, stayed
raised for all the following momenta computed by the same thread: the result depended
on the number of threads.
---
 interactions/four_particle/cpp/integral.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..a443d94 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -612,9 +612,10 @@ std::vector<dbl> integration(
 
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
+    dbl grid_max_1 = max_1;
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, grid_max_1) firstprivate(min_1, max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
@@ -633,12 +634,8 @@ std::vector<dbl> integration(
             else {
                 min_1 = sqrt(min2);
             }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
-            }
-            else {
-                max_1 = 3. * min_1;
-            }
+            // `max_1` is carried over to the next momenta computed by this thread: start anew
+            max_1 = std::max(grid_max_1, 3. * min_1);
         }
         if (reaction_type == Kinematics::CREATION) {
             if (reaction[3].specie.m == 0.) {continue; }
-- 
2.43.0


From f35790a573a41b58edbd4bec61250667296410ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 19/27] fix: report integration failures instead of aborting
 the program

An exception thrown inside the OpenMP parallel region never reached Python: the
program was terminated. Collect it and rethrow after the region. Also release the
workspaces of the failed integral and do not use those that failed to allocate.
---
 interactions/four_particle/cpp/integral.cpp  | 24 ++++++++++++++++----
 interactions/four_particle/cpp/integral.h    |  2 ++
 interactions/three_particle/cpp/integral.cpp | 21 ++++++++++++++---
 interactions/three_particle/cpp/integral.h   |  2 ++
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index a443d94..bb7262b 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -357,6 +357,9 @@ Kinematics get_reaction_type(const std::vector<reaction_t> &reaction) {
 }
 
 
+typedef std::unique_ptr<gsl_integration_workspace, void (*)(gsl_integration_workspace *)> workspace_ptr;
+
+
 struct integration_params {
     dbl p0;
     dbl p1;
@@ -613,10 +616,13 @@ std::vector<dbl> integration(
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
     dbl grid_max_1 = max_1;
+    // Exceptions cannot leave the parallel region on their own
+    std::exception_ptr failure;
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, grid_max_1) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, grid_max_1, failure) firstprivate(min_1, max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
+        try {
         dbl p0 = ps[i];
 
         if (reaction_type == Kinematics::DECAY) {
@@ -668,8 +674,12 @@ std::vector<dbl> integration(
         }
 
         size_t subdivisions = 100000;
-        gsl_integration_workspace *w1 = gsl_integration_workspace_alloc(subdivisions);
-        gsl_integration_workspace *w2 = gsl_integration_workspace_alloc(subdivisions);
+        gsl_set_error_handler_off();
+        workspace_ptr w1_owner(gsl_integration_workspace_alloc(subdivisions), gsl_integration_workspace_free);
+        workspace_ptr w2_owner(gsl_integration_workspace_alloc(subdivisions), gsl_integration_workspace_free);
+        gsl_integration_workspace *w1 = w1_owner.get();
+        gsl_integration_workspace *w2 = w2_owner.get();
+        if (!w1 || !w2) { throw std::bad_alloc(); }
         struct integration_params params = {
             p0, 0., 0.,
             &reaction, &Ms,
@@ -686,11 +696,15 @@ std::vector<dbl> integration(
             printf("2nd integration_1 result: %e ± %e. %i intervals. %s\n", result, error, (int) w1->size, gsl_strerror(status));
             throw std::runtime_error("Integrator failed to reach required accuracy");
         }
-        gsl_integration_workspace_free(w1);
-        gsl_integration_workspace_free(w2);
         integral[i] += result;
+        } catch (...) {
+            #pragma omp critical
+            failure = std::current_exception();
+        }
     }
 
+    if (failure) { std::rethrow_exception(failure); }
+
     return integral;
 }
 
diff --git a/interactions/four_particle/cpp/integral.h b/interactions/four_particle/cpp/integral.h
index c164e17..a8a315a 100644
--- a/interactions/four_particle/cpp/integral.h
+++ b/interactions/four_particle/cpp/integral.h
@@ -3,6 +3,8 @@
 #include <array>
 #include <vector>
 #include <complex>
+#include <exception>
+#include <memory>
 
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
diff --git a/interactions/three_particle/cpp/integral.cpp b/interactions/three_particle/cpp/integral.cpp
index f5129a0..f49fdc1 100644
--- a/interactions/three_particle/cpp/integral.cpp
+++ b/interactions/three_particle/cpp/integral.cpp
@@ -383,6 +383,9 @@ Kinematics_3 get_reaction_type(const std::vector<reaction_t3> &reaction) {
 }
 
 
+typedef std::unique_ptr<gsl_integration_workspace, void (*)(gsl_integration_workspace *)> workspace_ptr;
+
+
 struct integration_params {
     dbl p0;
     dbl p1;
@@ -482,10 +485,13 @@ std::vector<dbl> integration_3(
     std::vector<dbl> integral(ps.size(), 0.);
 
     auto reaction_type = get_reaction_type(reaction);
+    // Exceptions cannot leave the parallel region on their own
+    std::exception_ptr failure;
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, max_2)
+    #pragma omp parallel for default(none) shared(std::cout,ps, reaction, integral, stepsize, kind, reaction_type, failure) firstprivate(min_1, max_1, max_2)
     for (size_t i = 0; i < ps.size(); ++i) {
+        try {
         dbl p0 = ps[i];
 
         if (p0 == 0) {
@@ -528,7 +534,10 @@ std::vector<dbl> integration_3(
             dbl abseps = releps / stepsize;
 
             size_t subdivisions = 10000;
-            gsl_integration_workspace *w = gsl_integration_workspace_alloc(subdivisions);
+            gsl_set_error_handler_off();
+            workspace_ptr w_owner(gsl_integration_workspace_alloc(subdivisions), gsl_integration_workspace_free);
+            gsl_integration_workspace *w = w_owner.get();
+            if (!w) { throw std::bad_alloc(); }
             struct integration_params params = {
                 p0, 0.,
                 &reaction,
@@ -547,10 +556,16 @@ std::vector<dbl> integration_3(
                 throw std::runtime_error("Integrator failed to reach required accuracy");
             }
 
-            gsl_integration_workspace_free(w);
             integral[i] += result;
         }
+        } catch (...) {
+            #pragma omp critical
+            failure = std::current_exception();
+        }
     }
+
+    if (failure) { std::rethrow_exception(failure); }
+
     return integral;
 }
 
diff --git a/interactions/three_particle/cpp/integral.h b/interactions/three_particle/cpp/integral.h
index efbc722..e45f282 100644
--- a/interactions/three_particle/cpp/integral.h
+++ b/interactions/three_particle/cpp/integral.h
@@ -3,6 +3,8 @@
 #include <array>
 #include <vector>
 #include <complex>
+#include <exception>
+#include <memory>
 
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
-- 
2.43.0


From 0d3c66776de09952112c9e8be63a80f100d92f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 20/27] fix: let a universe without a folder compute the KAWANO
 rates

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 49af771..8a0e226 100755
--- a/evolution.py
+++ b/evolution.py
@@ -362,7 +362,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From a39bd75766cde1a8cc1e204850b992b30408c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 21/27] fix: heat the plasma by the right amount with the
 linear timestep

---
 particles/NonEqParticle.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/particles/NonEqParticle.py b/particles/NonEqParticle.py
index 792f093..fd161f3 100755
--- a/particles/NonEqParticle.py
+++ b/particles/NonEqParticle.py
@@ -14,6 +14,16 @@ from common.integrators import lambda_integrate
 name = 'non-equilibrium'
 aT = 0
 adec = 0
+
+
+def collision_rate(particle):
+    """ Collision integral is a derivative over the logarithm of the scale factor or, if the \
+        timestep is linear, over the scale factor $x$; the temperature equation needs the latter """
+    if environment.get('LOGARITHMIC_TIMESTEP'):
+        return particle.collision_integral / particle.params.x
+    return particle.collision_integral
+
+
 if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
     def density(particle):
@@ -111,7 +121,7 @@ if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
 
     def numerator(particle):
-        integral = linear_interpolation(particle.collision_integral / particle.params.x,
+        integral = linear_interpolation(collision_rate(particle),
                                         particle.grid.TEMPLATE)
         return lambda_integrate(particle.grid.BOUNDS)(lambda particle: numpy.vectorize(lambda y: (
             -1. * particle.dof / 2. / numpy.pi**2
@@ -201,7 +211,7 @@ else:
         return simps((
             -1. * particle.dof / 2. / numpy.pi**2
             * temp**2 * particle.conformal_energy(temp)
-            * particle.collision_integral / particle.params.x), temp
+            * collision_rate(particle)), temp
         )
 
 
-- 
2.43.0


From 5efc6ef3e4717a4c6a829273bb4212fdab94c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:47 +0000
Subject: [PATCH 22/27] fix: let a computation with KAWANO be continued after
 an export

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 8a0e226..e837ca2 100755
--- a/evolution.py
+++ b/evolution.py
@@ -178,7 +178,8 @@ class Universe(object):
 
             if self.kawano:
 
-                self.kawano_log.close()
+                # The file stays open: the computation might be continued
+                self.kawano_log.flush()
 
                 with utils.atomic_open(os.path.join(self.folder, "kawano.txt")) as f:
                     self.kawano_data.savetxt(f)
-- 
2.43.0


From 4b39e31c2438158c2850b44b1f055ecba559bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 23/27] fix: do not swallow Ctrl-C in the three-particle
 integral

A bare except around the kinematic cut-off and the scaling turned a
KeyboardInterrupt (and any other error) into an unscaled or zero collision
integral. Compare with False instead.
---
 interactions/three_particle/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/interactions/three_particle/__init__.py b/interactions/three_particle/__init__.py
index 1a01ada..a16e83a 100755
--- a/interactions/three_particle/__init__.py
+++ b/interactions/three_particle/__init__.py
@@ -108,10 +108,10 @@ class ThreeParticleIntegral(BoltzmannIntegral):
 
         stepsize *= constant_else
 
-        try:
-            ps, slice_1, slice_3 = kinematics.grid_cutoff_3p(self, ps)
-        except:
+        cutoff = kinematics.grid_cutoff_3p(self, ps)
+        if cutoff is False:
             return kinematics.return_function(self, ps)
+        ps, slice_1, slice_3 = cutoff
 
         if self.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay] and not hasattr(self.particle, 'fast_decay'):
             C = integration_3(ps, *bounds, self.creaction, stepsize, CollisionIntegralKind.Full)
@@ -122,10 +122,9 @@ class ThreeParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.array(slice_1 + fullstack + slice_3)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        try:
-            if not scaled_output:
-                return kinematics.return_function(self, fullstack)
-        except:
+        if scaled_output is False:
+            return kinematics.return_function(self, fullstack)
+        else:
             fullstack = scaled_output
 
         if hasattr(self.particle, 'fast_decay'):
-- 
2.43.0


From 002147d5fbd12990248e298ac370a5bfbd8b5a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:04 +0000
Subject: [PATCH 24/27] fix: rescale the current temperature in the QCD
 transition

The temperature of the row before the last one was used together with the
scale factor of the last one, so that the change over one step was lost.
---
 evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index e837ca2..d49834c 100755
--- a/evolution.py
+++ b/evolution.py
@@ -405,7 +405,7 @@ class Universe(object):
 
         dof_after_qcd = Params.entropic_dof_eq(self)
 
-        self.params.aT = self.data['aT'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
+        self.params.aT *= (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.x = self.data['x'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.a = self.data['a'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
         self.params.update(self.total_energy_density(), self.total_entropy()) # T will be updated here...
-- 
2.43.0


From 6396e39443d1780e52367587797750ee2b2196f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:32 +0000
Subject: [PATCH 25/27] fix: export tables of one column row by row

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 37ab4dc..4360b32 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -312,6 +312,6 @@ class DynamicRecArray(object):
 
         numpy.savetxt(
             f,
-            self.data.view((numpy.float_, len(self._data.dtype))) / self.units[None, :],
+            self.data.view((numpy.float_, (len(self._data.dtype),))) / self.units[None, :],
             delimiter='\t', header='\t'.join(heading)
         )
-- 
2.43.0


From 3fa4535da029c70b5f8848138c611a7e6b6fde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 26/27] fix: put quickly decaying species back when a step
 fails

---
 evolution.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/evolution.py b/evolution.py
index d49834c..ae69a4a 100755
--- a/evolution.py
+++ b/evolution.py
@@ -244,11 +244,21 @@ class Universe(object):
 
         particles = [particle for particle in self.particles if particle.collision_integrals]
 
-        with utils.printoptions(precision=3, linewidth=100):
-            for particle in particles:
-                # with (utils.benchmark(lambda: "δf/f ({}) = {}".format(particle.symbol, particle.collision_integral / particle._distribution * self.params.h),
-                #       self.log_throttler.output)):
-                particle.collision_integral = particle.integrate_collisions()
+        # Quickly decaying species change already here: put them back if the step fails
+        unstable = [(particle, particle._distribution, particle.num_creation)
+                    for particle in particles if hasattr(particle, 'fast_decay')]
+
+        try:
+            with utils.printoptions(precision=3, linewidth=100):
+                for particle in particles:
+                    # with (utils.benchmark(lambda: "δf/f ({}) = {}".format(particle.symbol, particle.collision_integral / particle._distribution * self.params.h),
+                    #       self.log_throttler.output)):
+                    particle.collision_integral = particle.integrate_collisions()
+        except BaseException:
+            for particle, distribution, num_creation in unstable:
+                particle._distribution = distribution
+                particle.num_creation = num_creation
+            raise
 
     def update_distributions(self):
         """ ### 4. Update particles distributions """
-- 
2.43.0


From 54d481fc6f24a6fe4b7bcba9886bce0e663164df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:31 +0000
Subject: [PATCH 27/27] fix: interpolate linearly between the neighbouring grid
 points

linear_interpolation() extrapolated from the grid cell above the one x lies in,
so that with SIMPSONS_NONEQ_PARTICLES off the plasma did not get the energy the
species out of equilibrium lost.
---
 common/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index f9ea64c..9c16bf0 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -313,19 +313,19 @@ def linear_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
         # Determine the closest grid points
-        i_low = index
-        x_low = grid[i_low]
-
-        i_high = index + 1
+        i_high = max(index, 1)
         x_high = grid[i_high]
 
+        i_low = i_high - 1
+        x_low = grid[i_low]
+
         return (
             function[i_low] * (x_high - x) + function[i_high] * (x - x_low)
         ) / (x_high - x_low)
-- 
2.43.0

