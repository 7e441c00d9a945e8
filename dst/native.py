"""The compiled collision integrals, built from /repo's working tree against the simulated runtime.

pybind11 and GSL are not installed and libgomp schedules on its own: the real `integral.cpp`/`Ds.cpp`
are compiled with the repository's options against the headers in shim/ and linked with simrt.cpp.
Two builds: the plain one, and one instrumented with -fsanitize=thread (compile only), where our own
callbacks make every memory access of the code a possible point of preemption.
"""
import ctypes
import glob
import importlib.util
import os
import sys
from importlib.machinery import ExtensionFileLoader

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYBBN_REPO', '/repo')
SHIM = os.path.join(VERIF, 'shim')

from dst import build

FLAGS = ['-fopenmp', '-fPIC', '-O3', '-ffast-math', '-march=native', '-std=c++17', '-Wno-psabi', '-fno-gnu-unique', '-fvisibility=hidden']


def shim_files():
    return sorted(glob.glob(SHIM + '/*/*.h')) + [SHIM + '/simrt.cpp']


def runtime():
    return build.produce(os.path.join(build.OUT, 'simrt-' + build.key(*shim_files()), 'libsimrt.so'),
                         ['g++', '-O2', '-fPIC', '-shared', '-std=c++17', '-I' + SHIM, '-o', '@OUT@', SHIM + '/simrt.cpp', '-lpthread'])


def extension(which, instrumented=False):
    """ which: 'four' or 'three' """
    src = '{}/interactions/{}_particle/cpp'.format(REPO, which)
    files = [src + '/integral.cpp'] + ([src + '/Ds.cpp'] if os.path.exists(src + '/Ds.cpp') else [])
    every = sorted(glob.glob(src + '/*.cpp') + glob.glob(src + '/*.h')) + shim_files()
    rt = runtime()
    out = os.path.join(build.OUT, '{}-{}{}'.format(which, 'i' if instrumented else 'p', build.key(*every)))
    target = os.path.join(out, 'integral.so')
    if os.path.exists(target):
        return target
    import sysconfig
    inc = sysconfig.get_paths()['include']
    if not os.path.exists(inc + '/Python.h'):
        inc = '/usr/include/python3.12'
    objs = []
    os.makedirs(out, exist_ok=True)
    for f in files:
        obj = os.path.join(out, '{}.{}.o'.format(os.path.basename(f), os.getpid()))
        build.run(['g++'] + FLAGS + (['-fsanitize=thread', '-O2'] if instrumented else []) +
                  ['-I' + SHIM, '-I' + inc, '-c', f, '-o', obj], cwd=src)
        objs.append(obj)
    build.produce(target, ['g++', '-shared', '-o', '@OUT@'] + objs +
                  ['-L' + os.path.dirname(rt), '-lsimrt', '-Wl,-rpath,' + os.path.dirname(rt), '-lpthread'])
    for o in objs:
        os.remove(o)
    return target


def build_all():
    from concurrent.futures import ThreadPoolExecutor
    runtime()
    with ThreadPoolExecutor(4) as ex:
        for path in ex.map(lambda a: extension(*a), [(w, i) for w in ('four', 'three') for i in (False, True)]):
            pass


class Runtime(object):
    """ The simulator's hand on the team, the quadrature and the allocator """
    NAMES = ['regions', 'members', 'switches', 'ws_alloc', 'ws_free', 'qag', 'evals', 'news', 'faults', 'yields', 'trace']

    def __init__(self):
        self.lib = ctypes.CDLL(runtime())
        L = ctypes.c_long
        self.lib.sim_configure.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        self.lib.sim_faults.argtypes = [L, L, ctypes.c_int, L, L]
        self.lib.sim_faults_qag.argtypes = [L, ctypes.c_int]

    def configure(self, seed=1, threads=1, policy=0, switch_ppm=0, mem_period=0):
        self.lib.sim_configure(seed, threads, policy, switch_ppm, mem_period)

    def faults(self, ws=0, qag=0, code=11, new=0, nan=0, qag_len=1, qag_mode=0):
        self.lib.sim_faults(ws, qag, code, new, nan)
        self.lib.sim_faults_qag(qag_len, qag_mode)

    def disarm(self):
        self.lib.sim_disarm()

    def reset_handler(self):
        self.lib.sim_reset_gsl_handler()

    def stats(self):
        a = (ctypes.c_long * 11)()
        self.lib.sim_stats(a)
        return dict(zip(self.NAMES, a))


def load(which, instrumented=False):
    """ The extension as a module object; both builds can be loaded side by side """
    path = extension(which, instrumented)
    name = 'dst_native_{}{}.integral'.format(which, '_i' if instrumented else '')
    loader = ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_loader(name, loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


rt = None
plain = {}
instr = {}


def install(instrumented=True):
    """ the plain builds become the modules the code imports """
    global rt
    rt = Runtime()
    rt.configure()
    rt.disarm()
    for which in ('four', 'three'):
        m = plain[which] = load(which)
        name = 'interactions.{}_particle.cpp.integral'.format(which)
        sys.modules[name] = m
        if instrumented:
            instr[which] = load(which, True)
