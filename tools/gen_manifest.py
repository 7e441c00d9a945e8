"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ('Seeded search over simulated runs of the real Python code, one seed one exactly repeatable run; a pass means no violation on the runs explored, '
        'not a proof. ')
STUBBED = 'The compiled collision integrals are replaced by a seeded stand-in; '
C = {
    'C01': ('simulated clocks, logging rates, folders, heap layouts, second process with another hash seed; bitwise comparison', STUBBED + 'bitwise comparison holds for one numpy/scipy build on one machine.'),
    'C02': ('seeded interleaving of several universes (construction, steps, failures, exports); bitwise comparison with each one alone', STUBBED + 'threads are not used: universes are interleaved at steps, as the code is not meant to be called from several threads.'),
    'C03': ('recorded file operations, every prefix with torn writes rebuilt as the crash state and judged', 'Files are real, operations are recorded by an LD_PRELOAD shim; file operations outside libc calls would not be seen.'),
    'C04': ('power-loss disk model over the recorded file operations', 'Trusts the disk model: ordered directory changes, data only safe after fsync.'),
    'C05': ('injected errors and short writes at seeded file operations, recovery, comparison with the undisturbed run', 'Errors are injected at libc calls of the process.'),
    'C06': ('simulated external program reading its input at seeded instants; crash prefixes of the input file', 'The external program is a state machine.'),
    'C07': ('simulated external program with seeded failures, slowness and old files', 'The external program is a state machine started through the subprocess seam.'),
    'C08': ('seeded failing collision integrals with retries; bitwise comparison with the undisturbed run', STUBBED + 'integrals fail at their call boundary.'),
    'C09': ('seeded segmentation of runs with exports; bitwise comparison with the uninterrupted run', STUBBED + 'bitwise comparison.'),
    'C10': ('collision integrals answering with NaN, infinities, huge and negative values at seeded calls; invariants in every step', STUBBED + 'values are injected at the call boundary.'),
    'C11': ('compiled integrals under a simulated OpenMP team with seeded preemption at memory accesses; comparison with one thread', 'The real C++ is compiled against stand-ins for libgomp, GSL and pybind11; sequentially consistent memory.'),
    'C12': ('injected allocation, quadrature and integrand failures on simulated thread teams', 'The real C++ is compiled against stand-ins for libgomp, GSL and pybind11.'),
    'C13': ('seeded collision values over runs; energy balance by an independent model', STUBBED + 'the balance is judged up to a bound on the truncation error.'),
    'C14': ('seeded runs against a small executable reference model of the expansion; bounded-step liveness', STUBBED + 'thermodynamics by independent quadrature with tolerances.'),
    'C15': ('simulated Ctrl-C at seeded system calls, clock readings, collision integrals and monitor calls', STUBBED + 'the signal is delivered at simulator-visible events, not between arbitrary bytecodes.'),
    'C16': ('simulated clocks with jumps and stalls; log against terminal and a reference throttler', STUBBED + 'clock read through libc.'),
    'C17': ('seeded segments, failures, exports and interleavings; recorded monitor calls against the history', STUBBED + 'bitwise comparison.'),
    'C18': ('used folders with seeded old content, failing removals, folder inspected after every file operation', 'Files are real, operations recorded by an LD_PRELOAD shim.'),
    'C19': ('seeded temperature histories with heating, failures, retries and segments; per-species state machine', STUBBED + 'tolerance only where the statement is not bitwise.'),
    'C20': ('seeded contents, cuts and interleaved universes around the transition; reference model', STUBBED + 'degrees of freedom counted independently.'),
    'C21': ('seeded operation sequences with failing allocations and files; refinement against a list of rows', 'Allocation failures are injected into numpy through malloc.'),
    'C22': ('seeded collision terms, decouplings, segments and failing steps; comparison with an independent Runge-Kutta integration', STUBBED + 'the collision terms are linear in the distribution; errors below first order in the step are not seen.'),
}
NA = {
    'C30': 'Pure function of its arguments: no schedule, clock, I/O, crash or fault enters (that the value does not depend on threads or failures is C11 and C12); a simulator has nothing to vary.',
    'C31': 'Pure construction of lists from library tables at start-up; no concurrency, time, I/O or multi-party behaviour to simulate.',
    'C32': 'Pure numerical functions and constants; nothing for a scheduler or fault injector to decide.',
    'C33': 'Pure function of grid, distribution and momentum; nothing for a scheduler or fault injector to decide.',
    'C34': 'Pure function of masses and scale factor; nothing for a scheduler or fault injector to decide.',
    'C35': 'Arithmetic identity of constants; the part that involves files and histories is covered by C03 and C21.',
}
m = {'version': 1,
     'setup_cmd': 'PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 python3 dst/build.py',
     'checks': [{'property': k, 'quick_cmd': './check.sh ' + k, 'thorough_cmd': './check.sh {} --tier thorough'.format(k),
                 'technique': 'deterministic simulation with fault injection: ' + t, 'level': 'exploration', 'level_note': BASE + n}
                for k, (t, n) in C.items()],
     'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
     'notes': 'No hooks in /repo: the seams are libc calls (LD_PRELOAD), sys.modules for the compiled extensions, subprocess.Popen, and link-time stand-ins. '
              'Replay: ./check.sh --replay <file>. Determinism: ./check.sh --digest <property> prints one digest per run.'}
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
