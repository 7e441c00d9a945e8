"""Writes /verif/properties.jsonl (one place to keep the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


TESTS = ("The two stable checks (tests/bounds_checks.py) compare analytic momentum bounds of a few decays; "
         "they never build a Universe, so ")

prop("C01", "Results do not depend on the clock, the logging or repetition",
     "The history a computation returns and the tables it exports are determined bit for bit by the physical setup. "
     "Repeating the same setup gives identical values whatever the clock does meanwhile (any reading, jumps in both directions, slow steps), "
     "whatever the logging rate is, with or without an output folder, whatever that folder is called, and however often something was computed before in the same process.",
     ["schedules", "configurations", "histories"],
     "every clock behaviour, logging rate, output folder, and every sequence of earlier computations in the process, for every physical setup",
     TESTS + "no test runs one setup twice, let alone under two clocks.",
     ["evolution.py", "common/utils.py", "common/__init__.py", "common/kinematics.py", "kawano.py", "particles/__init__.py"],
     [("history", "one row per step: aT, T, a, x, t, rho, N_eff, fraction, S", "evolution.py Universe.data"),
      ("log throttler", "decides from the clock whether this step prints", "common/utils.py Throttler")],
     [("only printing depends on the throttler", "evolution.py log(), save()"),
      ("per-universe history and parameters", "evolution.py __init__, common/__init__.py Params")],
     ["the returned history", "evolution.txt, kawano.txt, s4.dat", "distribution functions"])

prop("C02", "Universes alive in one process do not influence each other",
     "Any number of universes can be built and stepped in one process in any interleaving of their steps, and one can fail without the others noticing (environment variables set by the user are configuration of the whole process). "
     "Each one's history, distribution functions, neutron-proton conversion rates and exported tables are bit for bit the ones it gives when it is the only universe of the process.",
     ["schedules", "histories", "configurations"],
     "every interleaving of construction, steps, failures and exports of several universes",
     TESTS + "no test has two universes; state shared through classes, module globals or os.environ shows only under interleaving.",
     ["evolution.py", "kawano.py", "common/kinematics.py", "particles/__init__.py", "interactions/__init__.py", "common/utils.py"],
     [("kawano.particles, kawano.a", "module globals holding the electron and neutrino used for the rates", "kawano.py"),
      ("history", "rows of one universe", "evolution.py Universe.data"),
      ("HNL energy", "cut-off for four-particle integrals", "common/__init__.py Params.HNL_energy")],
     [("history created per instance", "evolution.py __init__"),
      ("kawano particles set before every use", "evolution.py save()"),
      ("matrix elements deep-copied per reaction", "interactions/__init__.py init_integrals")],
     ["the returned history", "kawano_data", "exported files"])

prop("C03", "Exported tables are whole at every instant and after any crash",
     "At every instant of a run with an output folder, and after the program is killed at any point of it, the evolution table and the KAWANO table in the folder are each either absent or a complete table: the heading and exactly the first n recorded rows, n never decreasing. "
     "At most one export period of steps is missing from a table, and when the computation returns normally both tables hold every recorded row.",
     ["crash_points", "schedules", "configurations"],
     "every instant at which a reader looks or the process dies, between and inside all file operations, for every export period and run length",
     TESTS + "no test reads a table while it is being written or stops a run in the middle.",
     ["evolution.py", "common/utils.py"],
     [("evolution.txt, kawano.txt", "snapshots of the history, rewritten every export_freq steps and at the end", "<folder>"),
      ("export_freq", "steps between snapshots", "evolution.py Universe.export_freq")],
     [("write aside, then rename", "common/utils.py atomic_open"), ("periodic export", "evolution.py evolve()"), ("final export", "evolution.py export()")],
     ["the files of the folder after every prefix of file operations (with torn last write)"])

prop("C04", "A power failure never leaves a damaged table behind",
     "If the machine loses power at any point of a run, so that file contents not yet forced to the disk are lost, cut or zeroed while the order of directory changes is kept, the evolution and KAWANO tables found afterwards are each absent or a complete table of the first n recorded rows. "
     "A completed export that was followed by another completed one is never lost.",
     ["crash_points", "fault_sequences"],
     "every point of power loss and every subset of unsynced data that may be lost",
     TESTS + "durability depends on where data is forced to the disk, which no ordinary run shows.",
     ["common/utils.py", "evolution.py"],
     [("evolution.txt, kawano.txt", "snapshots", "<folder>")],
     [("flush and fsync before rename", "common/utils.py atomic_open")],
     ["the folder as rebuilt from the operation log by the power-loss disk model"])

prop("C05", "A failing disk is reported and destroys no earlier export",
     "When creating, writing, forcing or renaming a file fails during an export (disk full, I/O error, permission), the failure reaches the caller as an exception and the tables exported before stay complete and readable; a short write is completed, not an error. "
     "Once the disk works again the computation can be continued or exported again, and the history and the tables come out complete, as if nothing had failed.",
     ["fault_sequences", "crash_points"],
     "every choice of failing file operations and error codes during exports, followed by recovery",
     TESTS + "no test makes a file operation fail.",
     ["common/utils.py", "evolution.py"],
     [("evolution.txt, kawano.txt", "snapshots", "<folder>")],
     [("rename only after a successful write", "common/utils.py atomic_open"), ("exceptions are not swallowed", "evolution.py evolve(), export()")],
     ["exceptions seen by the caller", "files of the folder", "history after recovery"])

prop("C06", "KAWANO is started on a complete input file",
     "When the external nucleosynthesis program is started, its input file is complete on disk: the heading and exactly one line for every step made at or below the KAWANO temperature (10 MeV), in order, agreeing with the history and the KAWANO table of the universe to the printed precision. "
     "At every earlier instant the file holds a prefix of that content, and after a crash nothing but its tail is missing.",
     ["crash_points", "schedules", "configurations"],
     "every instant at which the external program may start reading, every crash point, every setup crossing the KAWANO temperature",
     TESTS + "KAWANO and its input are never exercised.",
     ["evolution.py", "kawano.py"],
     [("s4.dat", "KAWANO input, appended every step", "<folder>"), ("kawano_data", "rows of rates", "evolution.py")],
     [("input closed before the program starts", "evolution.py export()"), ("one line per saved step", "evolution.py save()")],
     ["file content when the simulated external program starts and when it reads", "operation log prefixes"])

prop("C07", "KAWANO's failure is reported, costs no results and is never masked",
     "If the external program is missing, is killed, or ends without leaving an output, the caller gets an exception, and by then the complete evolution and KAWANO tables are already in the folder. "
     "If it succeeds, what is reported is exactly the complete output it wrote in this run, read after it has ended; output left by an earlier run is never reported.",
     ["fault_sequences", "schedules"],
     "every way the external program can fail or be slow, at every point of its own progress, with and without old files in the folder",
     TESTS + "the external program does not exist here and is never started.",
     ["kawano.py", "evolution.py"],
     [("kawano_output.dat", "output of the external program", "<folder>")],
     [("stale output removed before the start", "kawano.py run()"), ("wait for the end, check for signals", "kawano.py run()"), ("tables saved first", "evolution.py export()")],
     ["exception or returned text", "printed text", "files of the folder when the program is started"])

prop("C08", "A step that fails is reported, records nothing and can be retried",
     "If computing the collision integrals of a step fails, the exception reaches the caller, no row is added to the history or to the KAWANO data, and temperature, scale factor and time stay what they were; numpy's printing options are restored. "
     "Continuing the computation afterwards gives bit for bit the history it would have given without the failure.",
     ["fault_sequences", "histories"],
     "every sequence of failing collision integrals (any species, any call, any step, repeated failures) and retries",
     TESTS + "nothing ever fails in them.",
     ["evolution.py", "particles/__init__.py", "common/utils.py", "interactions/four_particle/__init__.py"],
     [("collision_integrals", "active integrals of a species for this step", "particles/__init__.py"),
      ("params", "current a, T, t, x", "common/__init__.py")],
     [("integrals forgotten before every step", "evolution.py init_interactions()"), ("state advanced only after the integrand", "evolution.py make_step()"),
      ("print options restored in finally", "common/utils.py printoptions")],
     ["history", "params", "numpy.get_printoptions()"])

prop("C09", "A run split into segments equals the uninterrupted run",
     "A computation may be stopped at any temperatures and continued, with or without intermediate exports: the history has no missing and no repeated row, and every row, distribution function and exported table is bit for bit that of the uninterrupted run to the same final temperature.",
     ["histories", "crash_points"],
     "every way of cutting a run into segments (including empty ones), for every setup",
     TESTS + "no test continues a run.",
     ["evolution.py", "common/__init__.py", "common/integrators/__init__.py"],
     [("history", "also the memory of the multistep integrator", "evolution.py Universe.data")],
     [("current state not recorded twice", "evolution.py evolve()"), ("time not initialised again", "evolution.py evolve(init_time=False)")],
     ["history", "distribution functions", "exported files"])

prop("C10", "Distribution functions stay finite and non-negative; free ones are frozen",
     "Whatever the collision integrals return (positive, negative, huge, NaN or infinite values), every recorded distribution function of a species out of equilibrium is finite and non-negative; a NaN leaves the function at that momentum as it was; an infinite value leaves it as it was or is refused with an exception. "
     "A stable decoupled species without collisions keeps exactly the comoving distribution it decoupled with, and its comoving number is constant.",
     ["fault_sequences", "histories"],
     "every sequence of values the collision integrals may return, over all steps, momenta and species",
     TESTS + "they never update a distribution.",
     ["particles/__init__.py", "particles/NonEqParticle.py", "evolution.py"],
     [("distribution", "comoving distribution function on the momentum grid", "particles/__init__.py _distribution, data")],
     [("NaN zeroed, infinite refused, negative clipped", "particles/__init__.py update_distribution()")],
     ["particle distribution after every step", "recorded distributions"])

prop("C11", "Collision integrals do not depend on the number or timing of threads",
     "The compiled collision integrals return, for every reaction, grid and set of distributions, values that depend only on the arguments: the same for every number of threads, every schedule of them and every order in which momenta are treated, for one momentum alone or among others, and for repeated calls.",
     ["schedules", "inputs"],
     "every interleaving of the worker threads at every shared memory access, every team size, for all reactions",
     "The compiled extensions are not built in the tests, and a data race shows only under some schedules.",
     ["interactions/four_particle/cpp/integral.cpp", "interactions/four_particle/cpp/integral.h", "interactions/three_particle/cpp/integral.cpp", "interactions/four_particle/cpp/Ds.cpp"],
     [("per-thread workspaces and bounds", "must be private to one iteration", "integral.cpp integration()")],
     [("OpenMP parallel for over momenta with private state", "integral.cpp integration()")],
     ["returned values under the simulated thread team"], "link-time stand-ins for libgomp and GSL; no change in /repo")

prop("C12", "Failures inside the compiled integration become Python exceptions",
     "If quadrature fails, memory runs out or an integrand misbehaves inside the compiled collision integrals, on whichever thread and at whichever momentum, the caller gets a Python exception: the process never aborts or hangs, no workspace is leaked, no failed value is returned as if it were good, and the next call gives correct values.",
     ["fault_sequences", "schedules"],
     "every failing allocation or quadrature call, on every thread, under every schedule",
     "The compiled extensions are not built in the tests and no allocation or quadrature call fails in them.",
     ["interactions/four_particle/cpp/integral.cpp", "interactions/three_particle/cpp/integral.cpp"],
     [("integration workspaces", "GSL allocations per thread", "integral.cpp")],
     [("exceptions captured inside the parallel region and rethrown after it", "integral.cpp integration()"), ("workspaces owned by RAII", "integral.cpp")],
     ["outcome of the call", "live workspaces afterwards", "values of the next call"], "link-time stand-ins for libgomp and GSL; no change in /repo")

prop("C13", "Energy and entropy are conserved whatever the collisions do",
     "In every step the total energy density changes by -3 (rho + P) per e-fold of expansion, up to the truncation error of the step, whatever values the collision integrals take and whichever species they act on: energy given to or taken from species out of equilibrium is taken from or given to the plasma. "
     "Oscillations distribute the collisions over the neutrino flavours without changing their sum. "
     "While all species are in equilibrium the comoving entropy is constant.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of collision values over a run, every particle content, both time-step modes, with and without oscillations",
     TESTS + "no evolution is run.",
     ["evolution.py", "particles/NonEqParticle.py", "particles/IntermediateParticle.py", "particles/RadiationParticle.py", "particles/DustParticle.py", "library/SM.py"],
     [("numerator, denominator", "terms of the temperature equation per species", "particles/*.py")],
     [("sum over all species of both terms", "evolution.py calculate_temperature_terms()"), ("oscillations conserve the total", "library/SM.py oscillations_map")],
     ["energy density and pressure of all species after every step", "history"])

prop("C14", "Every recorded row is a consistent state and the run reaches its end",
     "Every run with a positive step that resolves the collisions reaches the requested temperature in a bounded number of steps and stops at the first row at or below it; the scale factor grows by exactly the configured step from row to row, time grows strictly, and every value is finite. "
     "In every row T is aT over a, and the time since the previous row, the energy density, the entropy and N_eff are those of the particle content recorded for that step through the Friedmann equation.",
     ["histories", "configurations", "fault_sequences"],
     "every particle content, temperature range, step and collision history, in both time-step modes",
     TESTS + "no evolution is run.",
     ["evolution.py", "common/__init__.py", "particles/__init__.py", "common/integrators/__init__.py"],
     [("params", "current state", "common/__init__.py Params"), ("history", "rows", "evolution.py")],
     [("Friedmann equation and time step", "common/__init__.py Params.update()"), ("loop until T_final", "evolution.py evolve()")],
     ["history rows", "particle records"])

prop("C15", "Ctrl-C at any moment ends the run cleanly",
     "If the user interrupts the program while it is stepping, at any instant (inside a file operation, a collision integral, a clock reading, a monitor call), the program ends promptly with a non-zero exit status and does not take another step, and the tables in the folder are complete earlier or current snapshots.",
     ["schedules", "crash_points"],
     "every instant at which the interrupt can arrive",
     TESTS + "no test delivers a signal.",
     ["evolution.py", "common/utils.py"],
     [("evolution.txt, kawano.txt", "snapshots", "<folder>")],
     [("KeyboardInterrupt handled around the step and its export", "evolution.py evolve()")],
     ["exit status", "files of the folder", "steps made after the interrupt"])

prop("C16", "The log is a faithful copy and is throttled by real time only",
     "Everything printed while a universe with a folder is running reaches both the terminal and its log file, the same text in the same order. "
     "Progress lines of different steps appear at most once per logging interval as long as nobody changes the clock, and whenever the clock has run normally for an interval since the last line, the next step is reported; that also holds after the clock was set back or forward, counted from the end of the step in which it was changed.",
     ["schedules", "fault_sequences"],
     "every clock behaviour (jumps both ways, stalls, very fast steps), logging rate and output history",
     TESTS + "no test looks at the log or moves the clock.",
     ["common/utils.py", "evolution.py"],
     [("throttler clock", "time of the last report", "common/utils.py Throttler"), ("log.txt", "copy of the terminal output", "<folder>")],
     [("double logger", "common/utils.py Logger"), ("rate limit tolerant of clock jumps", "common/utils.py Throttler.update()")],
     ["terminal output", "log.txt", "simulated clock at every step"])

prop("C17", "The step monitor is called exactly once for every step",
     "A monitor installed on a universe is called exactly once for every step, with the universe, after the collision integrals and distribution functions of that step are known and before the step is recorded; it sees the same states whether or not the run is segmented, exported, logged or interleaved with others, and a run whose monitor only looks gives the same history as one without a monitor.",
     ["histories", "schedules"],
     "every sequence of steps, segments, exports and failures",
     TESTS + "no monitor is ever installed.",
     ["evolution.py"],
     [("step", "number of the current step", "evolution.py")],
     [("call in the middle of the step", "evolution.py make_step()")],
     ["sequence of monitor calls and the state each one sees"])

prop("C18", "A new run in a used folder starts clean and never mixes with the old one",
     "When a universe is created with a folder that already holds results of earlier runs (complete ones, interrupted ones or foreign files), nothing found there at any later instant, whatever fails or crashes, combines old and new data: until the creation of the universe has finished every file is absent or the untouched old one, and from then on only data of the new run appear under the result names; if old files cannot be removed the creation fails.",
     ["crash_points", "histories", "fault_sequences"],
     "every earlier content of the folder, every crash point of the new run, every failure of its external program",
     TESTS + "no test reuses a folder.",
     ["evolution.py", "kawano.py", "common/utils.py"],
     [("folder", "log.txt, evolution.txt, kawano.txt, s4.dat, kawano_output.dat", "<folder>")],
     [("folder removed at creation", "evolution.py __init__"), ("stale output removed", "kawano.py run()")],
     ["the folder after every operation"])

prop("C19", "Decoupling happens once, in order, and is never undone",
     "A species with a decoupling temperature is in equilibrium at the plasma temperature until the plasma has fallen to that temperature, leaves equilibrium in the first step after that and never returns, whatever happens to the plasma temperature or to the steps around it (failures, retries, segments, heating by collisions). "
     "From then on its own temperature falls exactly as 1/a and the distribution it starts from is the equilibrium one of that moment.",
     ["histories", "fault_sequences", "schedules"],
     "every temperature history, including heating by collisions, failed and retried steps around the decoupling",
     TESTS + "they never evolve a species.",
     ["particles/__init__.py", "evolution.py"],
     [("T, aT of a species", "own temperature, frozen after decoupling", "particles/__init__.py")],
     [("aT updated only in equilibrium", "particles/__init__.py update()")],
     ["per-species temperature, equilibrium flag and distribution after every step"])

prop("C20", "The QCD transition keeps entropy and continues the same history",
     "Exchanging quarks and gluons for hadrons between two segments of a run removes exactly the coloured species and their interactions, adds the given hadrons and interactions, rescales the plasma temperature by the cube root of the ratio of the entropic degrees of freedom of the species in equilibrium at that moment, and leaves scale factor, time and all other species alone. "
     "The history then continues without a repeated scale factor, however the surrounding segments are cut and whatever other universes do meanwhile.",
     ["histories", "schedules", "configurations"],
     "every particle content before and after, every point of the history, any segmentation and interleaving",
     TESTS + "no transition is ever made.",
     ["evolution.py", "common/utils.py", "common/__init__.py"],
     [("particles, interactions", "content of the universe", "evolution.py")],
     [("transition", "evolution.py QCD_transition()"), ("entropic degrees of freedom", "common/__init__.py entropic_dof_eq()")],
     ["content, params and history before and after"])

prop("C21", "The growing tables behave as lists of rows, also when an operation fails",
     "After any sequence of appends, extensions, truncations and reads, including operations that fail (malformed rows, memory that runs out, a file that cannot be written), a growing table holds exactly the rows appended and not truncated, in order and unchanged: length, indexing from both ends, columns, slices and the text export agree with a plain list of rows. "
     "A failed append or truncation changes nothing and is reported; a failed extension keeps the rows before the failing one and is reported.",
     ["histories", "fault_sequences"],
     "every operation sequence with failing allocations, malformed rows and failing files",
     TESTS + "the containers are never used.",
     ["common/utils.py"],
     [("_data, length, size", "backing array and used length", "common/utils.py DynamicRecArray, Dynamic2DArray")],
     [("growth by reallocation", "common/utils.py append()"), ("views limited to the used length", "common/utils.py data, __getitem__")],
     ["all read operations after every operation"])

prop("C22", "The recorded history solves the Friedmann, energy and Boltzmann equations",
     "For every particle content, start temperature, step that resolves the collisions, time-step mode and temperature solver, the temperature and the time in every row and the distribution of every decoupled species agree, up to an error of first order in the step, with the solution of the equations the program states: expansion by the Friedmann equation, df/dln a equal to the collision term over the Hubble rate, and conservation of energy between the species and the plasma. "
     "This holds from the first row on, through decouplings, segments and failed and retried steps. The compiled collision terms enter multiplied by 32 G_F^2 T^5 / (64 pi^3 H g/2), g being the degrees of freedom of the species (g instead of g/2 for Majorana particles, and by 1/x with the linear time step).",
     ["histories", "configurations", "fault_sequences"],
     "every particle content, collision history, step, decoupling, segmentation and failure sequence",
     TESTS + "no evolution is run.",
     ["evolution.py", "particles/__init__.py", "common/integrators/__init__.py", "interactions/four_particle/__init__.py"],
     [("aT, distributions, derivative histories", "state advanced by the multistep solvers", "evolution.py make_step(), particles/__init__.py")],
     [("multistep solvers", "common/integrators/__init__.py"), ("temperature equation", "evolution.py integrand()"), ("normalisation of the collision integrals", "interactions/four_particle/__init__.py")],
     ["rows of the history", "distribution functions at the end"])

# ---------------------------------------------------------------- pure functions: not a simulation target
prop("C30", "Collision integrals vanish in full equilibrium",
     "When all species of a reaction share one temperature and chemical potentials are zero, the collision integral of the reaction vanishes at every momentum up to quadrature error.",
     ["inputs"], "all reactions, temperatures, masses and grids", "The compiled extensions are not built in the tests.",
     ["interactions/four_particle/cpp/integral.cpp", "interactions/three_particle/cpp/integral.cpp"], [],
     [("detailed balance of the F functions", "integral.cpp")], ["returned values"])
prop("C31", "Crossing and deduplication keep the total matrix element of a reaction",
     "Generating all crossed reactions of an interaction and merging equal ones neither loses nor double counts any channel: for every species and channel the sum of matrix elements equals that of the textbook list.",
     ["inputs", "programs"], "all interactions expressible with up to four particles", "No stable test builds an interaction.",
     ["interactions/__init__.py", "interactions/four_particle/__init__.py", "library/SM.py", "library/NuMSM.py"], [],
     [("reactions_map, IntegralDeduplicator", "interactions/__init__.py")], ["list of integrals"])
prop("C32", "Quadratures and multistep coefficients have their nominal order",
     "The Gauss-Legendre and Gauss-Laguerre rules, Simpson sums and Adams coefficients integrate polynomials up to their nominal degree exactly.",
     ["inputs"], "all polynomials of the degree, all bounds", "Not covered by the stable tests.",
     ["common/integrators/__init__.py", "common/integrators/gauss_legendre.py", "common/integrators/gauss_laguerre.py"], [],
     [("coefficient tables", "common/integrators")], ["returned values"])
prop("C33", "Interpolated distributions agree with the grid and stay between neighbours",
     "Interpolating a distribution function at a grid momentum returns the stored value, and between grid momenta a value between the neighbouring ones.",
     ["inputs"], "all grids, distributions and momenta", "interpolation_test.py needs the compiled extension and is not stable here.",
     ["common/__init__.py", "interactions/four_particle/cpp/integral.cpp"], [],
     [("exponential interpolation", "integral.cpp distribution_interpolation()")], ["returned values"])
prop("C34", "Kinematic bounds contain every allowed momentum",
     "The momentum bounds used to cut the integration grids contain every kinematically allowed momentum of the reaction.",
     ["inputs"], "all masses, scale factors and grids", "bounds_checks.py samples a handful of decays.",
     ["common/kinematics.py"], [], [("bounds formulas", "common/kinematics.py")], ["returned bounds"])
prop("C35", "Unit conversion round-trips",
     "Quantities exported in a unit and read back multiplied by that unit are the original quantities.",
     ["inputs"], "all quantities and units", "UNITS are only used, not tested for round trips.",
     ["common/__init__.py", "common/utils.py"], [], [("unit columns", "common/utils.py DynamicRecArray")], ["exported numbers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
