"""Builds the compiled collision integrals of the current directory against a small simulated runtime (shim/) and loads them."""
import ctypes
import importlib.util
import os
import subprocess
import sys
import sysconfig
from importlib.machinery import ExtensionFileLoader

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(HERE, 'shim')
OUT = os.environ['SCRATCH']
FLAGS = ['-fopenmp', '-fPIC', '-O3', '-ffast-math', '-march=native', '-std=c++17', '-w', '-fno-gnu-unique', '-fvisibility=hidden']
subprocess.check_call(['g++', '-O2', '-fPIC', '-shared', '-std=c++17', '-I' + SHIM, '-o', OUT + '/libsimrt.so', SHIM + '/simrt.cpp', '-lpthread'])
lib = ctypes.CDLL(OUT + '/libsimrt.so')
L = ctypes.c_long
lib.sim_configure.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
lib.sim_faults.argtypes = [L, L, ctypes.c_int, L, L]
lib.sim_faults_qag.argtypes = [L, ctypes.c_int]


def configure(seed=1, threads=1, policy=0, switch_ppm=0, mem_period=0):
    lib.sim_configure(seed, threads, policy, switch_ppm, mem_period)


def load(which, instrumented=False):
    src = os.path.join(os.getcwd(), 'interactions', which + '_particle', 'cpp')
    inc = sysconfig.get_paths()['include']
    objs, procs = [], []
    for f in sorted(os.listdir(src)):
        if f in ('integral.cpp', 'Ds.cpp'):
            objs.append('{}/{}-{}.o'.format(OUT, which, f))
            procs.append(subprocess.Popen(['g++'] + FLAGS + (['-fsanitize=thread', '-O2'] if instrumented else []) +
                                          ['-I' + SHIM, '-I' + inc, '-c', f, '-o', objs[-1]], cwd=src))
    assert not any([p.wait() for p in procs])
    d = os.path.join(OUT, which)
    os.makedirs(d)
    subprocess.check_call(['g++', '-shared', '-o', d + '/integral.so'] + objs + ['-L' + OUT, '-lsimrt', '-Wl,-rpath,' + OUT, '-lpthread'])
    loader = ExtensionFileLoader(which + '.integral', d + '/integral.so')
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader(which + '.integral', loader))
    loader.exec_module(mod)
    return mod


def species(m, sfx, masses, sides, grid, eta=None, eq=None, pert=0.):
    import math
    out = []
    for i, mass in enumerate(masses):
        f = [1. / (math.exp(math.sqrt(p * p + mass * mass)) + 1) * (1 + pert * math.cos(p + i)) for p in grid]
        g = getattr(m, 'grid_t' + sfx)(grid=grid, distribution=f)
        p = getattr(m, 'particle_t' + sfx)(m=mass, grid=g, eta=1, in_equilibrium=int(bool(eq and eq[i])), T=1.)
        out.append(getattr(m, 'reaction_t' + sfx)(specie=p, side=sides[i]))
    return out


def ok(condition, text):
    if not condition:
        sys.stdout.write('BROKEN: {}\n'.format(text))
        sys.stdout.flush()
        os._exit(1)
