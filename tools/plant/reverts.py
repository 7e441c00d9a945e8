"""Undoes each "fix:" commit on a copy and runs the property's check: the defect must be reported again."""
import json, os, shutil, subprocess, sys
import concurrent.futures as cf
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')


def one(line):
    prop, commit, what = line.split('property=')[1].split(' ', 2)
    copy = '/tmp/seed/rev-' + commit
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    r = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', commit], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = [prop, commit, what[:70]]
    if r.returncode:
        out.append('REVERT CONFLICTS')
    else:
        c = subprocess.run(['./check.sh', prop, '--jobs', '4'], cwd=V, env=dict(os.environ, PYBBN_REPO=copy, VERIF_SEED='1', DST_EVIDENCE='/tmp/seed/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = c.stdout.decode()
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        out.append('CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%s %s' % (c.returncode, o[-300:]))
    shutil.rmtree(copy, ignore_errors=True)
    return ' | '.join(out)


lines = [l for l in json.load(open(os.path.join(V, 'known_findings.json')))['fixed'] if not sys.argv[1:] or any(a in l for a in sys.argv[1:])]
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, lines):
        print(r, flush=True)
