"""Builds what a check needs from /repo's working tree and this directory, keyed on the sources."""
import hashlib
import os
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
OUT = os.path.join(VERIF, 'build')


def key(*files):
    h = hashlib.sha256()
    for f in files:
        with open(f, 'rb') as fh:
            h.update(f.encode() + b'\0' + fh.read() + b'\0')
    return h.hexdigest()[:20]


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('build failed: {}\n{}'.format(' '.join(cmd), p.stdout[-4000:]))


def produce(target, cmd):
    if os.path.exists(target):
        return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = '{}.{}.tmp'.format(target, os.getpid())
    run([c if c != '@OUT@' else tmp for c in cmd])
    os.replace(tmp, target)
    return target


def simfs():
    src = os.path.join(HERE, 'simfs.c')
    return produce(os.path.join(OUT, 'simfs-' + key(src), 'libsimfs.so'),
                   ['gcc', '-O2', '-fPIC', '-shared', '-o', '@OUT@', src, '-ldl'])


if __name__ == '__main__':
    if sys.argv[1:] == ['simfs']:
        print(simfs())
    else:
        print(simfs())
        from dst import native
        native.build_all()
