"""Plants bugs: plant.py [id ...] makes seeded/<id>/, verifies demo (0/non-zero) and runs the property's check on the patched copy."""
import json, os, shutil, subprocess, sys, importlib.util, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', '..', 'seeded')
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nD=$(cd "$(dirname "$0")" && pwd)\nS=$(mktemp -d) || exit 9\ntrap \'rm -rf "$S"\' EXIT\nexport SCRATCH=$S PYTHONPATH=$D\n/opt/venv/bin/python -B "$D/demo.py"\n'


def load():
    bugs = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'bugs'))):
        if f.endswith('.py'):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, 'bugs', f))
            m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
            bugs[f[:-3]] = m
    return bugs


def run(cmd, cwd, env=None, t=1200):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def make(name, m, check, tests):
    copy = '/tmp/seed/' + name
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=copy)
    out = os.path.join(SEEDED, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for f, old, new in m.EDITS:
        p = os.path.join(copy, f)
        s = open(p, encoding='utf8').read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, 'w', encoding='utf8').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=copy)
    assert diff
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(out, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    open(os.path.join(out, 'demo.py'), 'w').write(m.DEMO.lstrip('\n'))
    if 'bbn' in m.DEMO:
        shutil.copy(os.path.join(HERE, 'bbn.py'), out)
    for extra in getattr(m, 'FILES', []):
        src = os.path.join(HERE, '..', '..', extra)
        dst = os.path.join(out, os.path.basename(extra))
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, dst)
    json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    r = [name, m.PROPERTY]
    c0, o0 = run(['bash', os.path.join(out, 'demo.sh')], '/repo')
    c1, o1 = run(['bash', os.path.join(out, 'demo.sh')], copy)
    r.append('demo {}/{}'.format(c0, c1) + ('' if c0 == 0 and c1 == 1 else ' !!!!! ' + o0[-600:] + ' | ' + o1[-600:]))
    r.append((o1.strip().splitlines() or [''])[-1][:150])
    if check:
        for prop in [m.PROPERTY] + list(getattr(m, 'ALSO', [])):
            c, o = run(['./check.sh', prop, '--jobs', '4'], os.path.join(HERE, '..', '..'), {'PYBBN_REPO': copy, 'VERIF_SEED': '1', 'DST_EVIDENCE': '/tmp/seed/ev'})
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            r.append('{}: rc={} {}'.format(prop, c, 'CAUGHT' if c == 1 and v else 'MISSED ' + o[-300:]))
            r.append(next((l for l in o.splitlines() if l.strip().startswith('violation') or 'seed' in l), '')[:300])
    if tests:
        subprocess.check_call(['sed', 's#/repo#' + copy + '#g', '/opt/vp/test.sh'], stdout=open('/tmp/seed/%s.test.sh' % name, 'w'))
        c, o = run(['bash', '/tmp/seed/%s.test.sh' % name, '/tmp/seed/%s.json' % name], copy)
        r.append('tests ' + ' '.join(l.split()[0] for l in open('/tmp/seed/%s.json' % name).read().split('\n') if 'pass' in l.lower())[:80] + ' ' + open('/tmp/seed/%s.json' % name).read()[:300].replace('\n', ' '))
    shutil.rmtree(copy, ignore_errors=True)
    return '\n   '.join(r)


if __name__ == '__main__':
    a = sys.argv[1:]
    check, tests = '--nocheck' not in a, '--tests' in a
    a = [x for x in a if not x.startswith('--')]
    bugs = load()
    names = [n for n in bugs if not a or n in a or any(n.startswith(x) for x in a)]
    with cf.ThreadPoolExecutor(2 if check else 6) as ex:
        for f in cf.as_completed([ex.submit(make, n, bugs[n], check, tests) for n in names]):
            try:
                print(f.result(), flush=True)
            except Exception as e:
                print('ERROR', repr(e), flush=True)
