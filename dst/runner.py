"""Seeded search over simulated runs: fork one process per run, check, minimise, report.

Usage:  runner.py check  <property> [--tier quick|thorough] [--runs N] [--jobs N]
        runner.py replay <file>
        runner.py digest <property> [--runs N] [--jobs N]     (event digests, for determinism tests)
"""
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

REAL_TIME = time.monotonic
RUN_LIMIT = 120            # seconds of real time for one simulated run: only a backstop


def run_seed(base, prop, i):
    return int.from_bytes(hashlib.sha256('{}/{}/{}'.format(base, prop, i).encode()).digest()[:8], 'big')


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


# ----------------------------------------------------------------------------- one run, in a forked child
def child_main(mod, plan, wfd, root):
    """ never returns """
    status = {'ok': False}
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        from dst.world import World
        w = World(root)
        w.enter()
        random.seed(0)
        if os.environ.get('DST_COV'):
            from dst import linecov
            linecov.start()
        violations = mod.execute(plan, w) or []
        status = {'ok': True, 'violations': violations, 'stats': w.stats, 'events': getattr(w, 'digest', None)}
    except BaseException as e:
        if type(e).__name__ == 'Unstable':
            status = {'ok': True, 'violations': [], 'stats': {'unstable': 1}, 'events': 'unstable'}
        if isinstance(e, SystemExit):
            msg = 'SystemExit {}'.format(e.code)
        else:
            msg = '{}: {}'.format(type(e).__name__, e)
        if not status['ok']:
            status = {'ok': False, 'error': msg, 'trace': traceback.format_exc()[-3000:]}
    try:
        from dst.world import lib, HAVE_SIM
        if os.environ.get('DST_COV'):
            linecov.dump(os.environ['DST_COV'])
        if HAVE_SIM:
            lib.simfs_disarm()
            lib.simclock_disarm()
        raw = json.dumps(status).encode()
        while raw:
            n = os.write(wfd, raw)
            raw = raw[n:]
    finally:
        os._exit(0)


class Pool(object):
    """ Runs plans in forked children of this (booted) process """

    def __init__(self, mod, jobs):
        self.mod, self.jobs = mod, jobs
        self.live = {}

    def start(self, tag, plan):
        root = tempfile.mkdtemp(prefix='dst.', dir=scratch_root())
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1):
                os.dup2(devnull, fd)
            if not os.environ.get('DST_DEBUG'):
                os.dup2(devnull, 2)
            child_main(self.mod, plan, w, root)
        os.close(w)
        self.live[r] = [tag, plan, pid, root, b'', REAL_TIME()]

    def collect(self, block=True):
        """ -> list of (tag, plan, result) """
        out = []
        while self.live:
            ready, _, _ = select.select(list(self.live), [], [], 1. if block else 0)
            for fd in ready:
                job = self.live[fd]
                data = os.read(fd, 1 << 16)
                if data:
                    job[4] += data
                    continue
                os.close(fd)
                del self.live[fd]
                _, st = os.waitpid(job[2], 0)
                shutil.rmtree(job[3], ignore_errors=True)
                out.append((job[0], job[1], self.result(job[4], st)))
            now = REAL_TIME()
            for fd, job in list(self.live.items()):
                if now - job[5] > RUN_LIMIT:
                    os.kill(job[2], signal.SIGKILL)
                    os.waitpid(job[2], 0)
                    os.close(fd)
                    del self.live[fd]
                    shutil.rmtree(job[3], ignore_errors=True)
                    out.append((job[0], job[1], {'ok': False, 'error': 'stalled: no end within {} s of real time'.format(RUN_LIMIT), 'stalled': True}))
            if out or not block:
                break
        return out

    @staticmethod
    def result(raw, st):
        if raw:
            try:
                return json.loads(raw.decode())
            except ValueError:
                pass
        if os.WIFSIGNALED(st):
            return {'ok': False, 'error': 'killed by signal {}'.format(os.WTERMSIG(st)), 'crashed': os.WTERMSIG(st)}
        return {'ok': False, 'error': 'ended with status {} and no result'.format(os.WEXITSTATUS(st)), 'crashed': -os.WEXITSTATUS(st)}

    def one(self, plan):
        self.start(None, plan)
        while True:
            got = self.collect()
            if got:
                return got[0][2]


def classify(mod, res):
    """ -> list of violations; harness trouble is turned into one only if the module says so """
    if res.get('ok'):
        return res['violations']
    f = getattr(mod, 'on_failure', None)
    v = f(res) if f else None
    if v:
        return v
    # The simulated universe died in a way no plan asked for (an exception out of the code under
    # test, a crash, a stall): on the unchanged tree it never happens, so it is a violation too.
    return [{'class': 'unexpected:' + res.get('error', '?').split(':')[0][:60], 'detail': res.get('error', '?') + '\n' + res.get('trace', '')[-1500:]}]


# ----------------------------------------------------------------------------- zygotes
def zygote(prop, profile, indices, base, tier, jobs, wfd, stop_after, deadline):
    """ a booted process that works through its share of the runs and reports lines of JSON """
    out = os.fdopen(wfd, 'w')
    try:
        mod = load(prop)
        from dst import boot
        boot.boot(profile, integrals=getattr(mod, 'INTEGRALS', 'stub'))
        if hasattr(mod, 'prepare'):
            mod.prepare()
        pool = Pool(mod, jobs)
        todo = list(indices)
        bad = 0
        while todo or pool.live:
            while todo and len(pool.live) < jobs and bad < stop_after and REAL_TIME() < deadline:
                i = todo.pop(0)
                rng = random.Random(run_seed(base, prop, i))
                plan = mod.make_plan(rng, tier)
                plan['profile'] = profile
                plan['seed'] = [base, i]
                pool.start(i, plan)
            if not pool.live:
                break
            for i, plan, res in pool.collect():
                v = classify(mod, res)
                if any(not match_known(prop, x) for x in v or ()):
                    bad += 1
                out.write(json.dumps({'i': i, 'violations': v, 'plan': plan if v or i < 3 else None,
                                      'stats': res.get('stats', {}), 'events': res.get('events')}) + '\n')
                out.flush()
        out.write(json.dumps({'done': True, 'left': len(todo)}) + '\n')
    except BaseException:
        out.write(json.dumps({'harness': traceback.format_exc()[-4000:]}) + '\n')
    finally:
        out.flush()
        os._exit(0)


def sweep(prop, tier, base, runs, jobs, stop_after=3, budget=None):
    mod = load(prop)
    profiles = getattr(mod, 'PROFILES', ['small'])
    weights = getattr(mod, 'PROFILE_WEIGHTS', [1] * len(profiles))
    share = {p: [] for p in profiles}
    cycle = [p for p, w in zip(profiles, weights) for _ in range(w)]
    for i in range(runs):
        share[cycle[i % len(cycle)]].append(i)
    per = max(1, jobs // len(profiles))
    deadline = REAL_TIME() + (budget or 1e9)
    fds = {}
    for n, p in enumerate(profiles):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            k = per + (1 if n < jobs - per * len(profiles) else 0)
            zygote(prop, p, share[p], base, tier, k, w, stop_after, deadline)
        os.close(w)
        fds[r] = [pid, b'']
    results, left = [], 0
    while fds:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if not data:
                os.close(fd)
                pid, rest = fds.pop(fd)
                os.waitpid(pid, 0)
                continue
            fds[fd][1] += data
            *lines, fds[fd][1] = fds[fd][1].split(b'\n')
            for line in lines:
                m = json.loads(line.decode())
                if 'harness' in m:
                    results.append({'i': -1, 'boot': m['harness']})
                elif 'done' in m:
                    left += m['left']
                else:
                    results.append(m)
    results.sort(key=lambda m: m['i'])
    return results, left


# ----------------------------------------------------------------------------- minimise
def in_zygote(prop, profile, work):
    """ run work(pool, mod) in a freshly booted process, return its JSON answer """
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        ans = {'harness': 'no answer'}
        try:
            mod = load(prop)
            from dst import boot
            boot.boot(profile, integrals=getattr(mod, 'INTEGRALS', 'stub'))
            if hasattr(mod, 'prepare'):
                mod.prepare()
            ans = work(Pool(mod, 1), mod)
        except BaseException:
            ans = {'harness': traceback.format_exc()[-4000:]}
        with os.fdopen(w, 'w') as f:
            f.write(json.dumps(ans))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        raw = f.read()
    os.waitpid(pid, 0)
    return json.loads(raw)


def generic_shrink(plan):
    """ drop elements of lists called ops/faults/..., reduce numbers in them """
    for key in ('faults', 'ops', 'cuts', 'kills', 'jumps', 'schedule', 'children'):
        lst = plan.get(key)
        if not isinstance(lst, list):
            continue
        n = len(lst)
        if n > 3:
            for a, b in ((0, n // 2), (n // 2, n)):
                p = copy.deepcopy(plan)
                del p[key][a:b]
                yield p
        for i in range(n):
            p = copy.deepcopy(plan)
            del p[key][i]
            yield p
    if isinstance(plan.get('spec'), dict):
        from dst.scen import simplify_spec
        for s in simplify_spec(plan['spec']):
            p = copy.deepcopy(plan)
            p['spec'] = s
            yield p


def minimise(prop, plan, violation, budget=60.):
    cls = violation['class']

    def work(pool, mod):
        t0 = REAL_TIME()
        best, bestv, tried = plan, violation, 0
        # reproduce first
        v = [x for x in classify(mod, pool.one(best)) if x['class'] == cls]
        if not v:
            return {'plan': best, 'violation': bestv, 'tried': 1, 'reproduced': False}
        bestv = v[0]
        improved = True
        gens = getattr(mod, 'shrink', None)
        while improved and REAL_TIME() - t0 < budget:
            improved = False
            cands = list(gens(best)) if gens else []
            cands += list(generic_shrink(best))
            for c in cands:
                if REAL_TIME() - t0 > budget:
                    break
                tried += 1
                try:
                    v = [x for x in classify(mod, pool.one(c)) if x['class'] == cls]
                except Exception:
                    continue
                if v:
                    best, bestv, improved = c, v[0], True
                    break
        return {'plan': best, 'violation': bestv, 'tried': tried, 'reproduced': True}
    return in_zygote(prop, plan['profile'], work)


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


# ----------------------------------------------------------------------------- commands
def prebuild(mod):
    if getattr(mod, 'INTEGRALS', 'stub') == 'native':
        from dst import native
        native.build_all()


def check(prop, tier, runs, jobs, minimise_budget=60.):
    t0 = REAL_TIME()
    base = int(os.environ.get('VERIF_SEED', '1'))
    mod = load(prop)
    runs = runs or mod.RUNS[tier]
    budget = getattr(mod, 'BUDGET', {'quick': 300, 'thorough': 3 * 3600})[tier]
    prebuild(mod)
    print('{}: {} runs, seed {}, tier {}'.format(prop, runs, base, tier), flush=True)
    results, left = sweep(prop, tier, base, runs, jobs, budget=budget)
    violations, known = [], {}
    stats, events = {}, set()
    other = getattr(mod, 'OTHER_HASHSEED_RUNS', {}).get(tier, 0)
    if other and not any(r.get('violations') or 'boot' in r for r in results):
        violations += compare_processes(mod, prop, base, tier, results[:other], jobs, stats)
    nontrivial = set()
    samples = []
    for r in results:
        if 'boot' in r:
            violations.append(({'class': 'unexpected:boot', 'detail': 'the code cannot be brought up:\n' + r['boot']}, None))
            continue
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        if r.get('events'):
            events.add(r['events'])
            if (r.get('stats') or {}).get('nontrivial', 1):
                nontrivial.add(r['events'])
        if r.get('plan') and len(samples) < 2:
            samples.append(r['plan'])
        for v in r['violations']:
            k = match_known(prop, v)
            if k:
                known[k['id']] = k
            else:
                violations.append((v, r['plan']))
    done = [r for r in results if 'boot' not in r]
    replay = None
    if violations:
        v, plan = violations[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(VERIF, 'replays', '{}-{}.json'.format(prop, base))
        doc = {'property': prop, 'violation': v, 'plan': plan, 'original_plan': plan}
        if plan is not None and 'hashseed' not in plan:
            m = minimise(prop, plan, v, minimise_budget)
            if 'harness' not in m:
                doc.update(plan=m['plan'], violation=m['violation'], minimiser_runs=m['tried'], reproduced=m['reproduced'])
        with open(replay, 'w') as f:
            json.dump(doc, f, indent=1, sort_keys=True)
    wall = REAL_TIME() - t0
    cov = {
        'evaluations': len(done),
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples,
        'runs_planned': runs, 'runs_not_started_for_time': left,
        'runs_per_hour': round(len(done) / max(wall, 1e-9) * 3600),
        'distinct_event_histories': len(events),
        'fault_and_probe_counts': stats,
        'real_components': getattr(mod, 'REAL', REAL), 'stubbed_components': getattr(mod, 'STUB', STUB),
    }
    ev = {'property': prop, 'tier': tier, 'seed': base, 'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for k in known.values():
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    print('{} runs, {} distinct, {:.1f} s; {}'.format(len(done), len(events), wall, json.dumps(stats, sort_keys=True)), flush=True)
    if violations:
        d = json.load(open(replay))
        print('class: {}\ndetail: {}'.format(d['violation']['class'], d['violation']['detail']))
        print('VIOLATION property={} replay={}'.format(prop, replay), flush=True)
        return 1
    if not done:
        print('nothing was explored', file=sys.stderr)
        return 3
    for probe in getattr(mod, 'MUST_REACH', []):
        if not stats.get(probe):
            print('warning: probe {} was never reached'.format(probe))
    return 0


def in_other_process(prop, runs, jobs, hashseed, tier):
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    out = subprocess.run([sys.executable, os.path.abspath(__file__), 'digest', prop, '--runs', str(runs), '--jobs', str(jobs), '--tier', tier],
                         env=env, stdout=subprocess.PIPE, text=True).stdout
    return {int(line.split()[0]): line.split()[1] for line in out.splitlines() if len(line.split()) == 3}


def compare_processes(mod, prop, base, tier, results, jobs, stats):
    """ the same runs in another process with another string hash """
    hashseed = 1 + run_seed(base, prop, -1) % 4000000000
    got = in_other_process(prop, len(results), jobs, hashseed, tier)
    stats['runs_repeated_in_another_process_with_another_hash_seed'] = len(got)
    for r in results:
        if r['i'] in got and got[r['i']] != str(r.get('events')):
            plan = mod.make_plan(random.Random(run_seed(base, prop, r['i'])), tier)
            plan.update(profile='-', seed=[base, r['i']], hashseed=hashseed, tier=tier)
            return [({'class': 'process', 'detail': 'run {}: the results differ between two processes (PYTHONHASHSEED {} and {})'.format(
                r['i'], os.environ.get('PYTHONHASHSEED'), hashseed)}, plan)]
    return []


def match_known(prop, v):
    for k in known_findings(prop):
        if k['class'] == v['class'] and k.get('contains', '') in v['detail']:
            return k
    return None


REAL = ['evolution', 'particles', 'common', 'interactions (Python)', 'library', 'kawano']
STUB = ['compiled collision integrals (seeded relaxation stand-in)', 'KAWANO program (state machine)', 'terminal', 'clock', 'disk faults (LD_PRELOAD on real scratch files)']


def replay(path):
    doc = json.load(open(path))
    prop, plan, v = doc['property'], doc['plan'], doc['violation']
    prebuild(load(prop))
    if plan is None:
        print('the code could not be brought up; run the check itself')
        return 1
    if 'hashseed' in plan:
        os.environ['VERIF_SEED'] = str(plan['seed'][0])
        n = plan['seed'][1] + 1
        a, b = (in_other_process(prop, n, os.cpu_count() or 4, h, plan['tier']).get(n - 1) for h in (os.environ.get('PYTHONHASHSEED', '0'), plan['hashseed']))
        print(a, b)
        if a == b:
            print('not reproduced on this tree')
            return 0
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    ans = in_zygote(prop, plan['profile'], lambda pool, mod: {'v': classify(mod, pool.one(plan))})
    if 'harness' in ans:
        print(ans['harness'])
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    got = ans['v']
    same = [x for x in got if x['class'] == v['class']]
    for x in got:
        print('class: {}\ndetail: {}'.format(x['class'], x['detail']))
    if same:
        print('reproduced {}'.format('exactly' if same[0] == v else 'with other details'))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    print('not reproduced on this tree')
    return 0


def digest(prop, runs, jobs, tier='quick'):
    base = int(os.environ.get('VERIF_SEED', '1'))
    prebuild(load(prop))
    results, _ = sweep(prop, tier, base, runs, jobs, stop_after=10**9)
    for r in results:
        print(r['i'], r.get('events'), hashlib.sha256(json.dumps([r.get('violations'), r.get('stats')], sort_keys=True).encode()).hexdigest()[:12])
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    a = ap.parse_args(argv)
    if a.cmd == 'check':
        return check(a.what, a.tier, a.runs, a.jobs)
    if a.cmd == 'replay':
        return replay(a.what)
    if a.cmd == 'digest':
        return digest(a.what, a.runs or 50, a.jobs, a.tier)
    raise SystemExit('unknown command')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
