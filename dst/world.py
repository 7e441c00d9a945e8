"""The simulated world around one universe: disk, clock, external program, terminal."""
import ctypes
import errno
import io
import os
import struct
import sys

REPO = os.environ.get('PYBBN_REPO', '/repo')

OPEN, WRITE, TRUNC, CLOSE, RENAME, UNLINK, MKDIR, RMDIR, FSYNC, LINK, MARK = range(1, 12)
OPNAMES = dict(enumerate('OPEN WRITE TRUNC CLOSE RENAME UNLINK MKDIR RMDIR FSYNC LINK MARK'.split(), 1))
F_ERRNO, F_SHORT, F_SIGINT_BEFORE, F_SIGINT_AFTER, F_KILL = range(1, 6)
O_CREAT, O_TRUNC = os.O_CREAT, os.O_TRUNC

lib = ctypes.CDLL(None)
HAVE_SIM = hasattr(lib, 'simfs_arm')
if HAVE_SIM:
    lib.simfs_fault.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    lib.simfs_seq.restype = ctypes.c_uint64
    lib.simfs_hits.restype = ctypes.c_long
    lib.simclock_arm.argtypes = [ctypes.c_double, ctypes.c_double, ctypes.c_int,
                                 ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_double)]
    lib.simclock_advance.argtypes = [ctypes.c_double]
    lib.simclock_jump.argtypes = [ctypes.c_double]
    for f in ('simclock_wall', 'simclock_mono'):
        getattr(lib, f).restype = ctypes.c_double
    lib.simclock_reads.restype = ctypes.c_uint64
    lib.simclock_sigint.argtypes = [ctypes.c_uint64]
    lib.simmem_arm.argtypes = [ctypes.c_size_t, ctypes.c_long]
    lib.simmem_disarm.restype = ctypes.c_long
    lib.simmem_count.restype = ctypes.c_long


class HarnessError(Exception):
    """ Something is wrong with the simulator, not with the code under test """


# ----------------------------------------------------------------------------- disk
class Op(object):
    __slots__ = ('i', 'kind', 'seq', 'fd', 'res', 'off', 'path', 'data')

    def __repr__(self):
        return '#{} {} {} fd={} res={} off={} len={}'.format(
            self.seq, OPNAMES.get(self.kind), os.path.basename(self.path), self.fd, self.res, self.off, len(self.data))


class Disk(object):
    """ Scratch directory whose mutating operations are numbered, logged and can be failed """

    def __init__(self, root, logpath):
        self.root, self.logpath = root, logpath
        self.faults = []

    def arm(self, faults=()):
        if not HAVE_SIM:
            raise HarnessError('libsimfs is not preloaded')
        self.initial = snapshot(self.root)
        self.fd = os.open(self.logpath, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_CLOEXEC, 0o600)
        lib.simfs_arm(self.root.encode(), self.fd)
        for f in faults:
            self.fault(**f)

    def fault(self, at, kind, arg=0, until=None, ops=0):
        lib.simfs_fault(at, at if until is None else until, kind, arg, ops)
        self.faults.append((at, kind, arg))

    def hits(self):
        return [lib.simfs_hits(i) for i in range(len(self.faults))]

    def mark(self, what):
        lib.simfs_mark(what.encode())

    def seq(self):
        return lib.simfs_seq()

    def disarm(self):
        lib.simfs_disarm()

    def ops(self):
        with open(self.logpath, 'rb') as f:
            raw = f.read()
        return parse_ops(raw)


def faulted(ops):
    """ [(kind of fault, kind of operation, path)] as they were hit """
    out = []
    for op in ops:
        if op.kind == MARK and op.path.startswith('fault '):
            _, what, kind, path = op.path.split(' ', 3)
            out.append((what, int(kind), path))
    return out


HEADER = struct.Struct('<IIQiiQII')


def parse_ops(raw):
    out, pos = [], 0
    while pos + HEADER.size <= len(raw):
        magic, kind, seq, fd, res, off, plen, dlen = HEADER.unpack_from(raw, pos)
        if magic != 0x51F5F00D:
            raise HarnessError('operation log is damaged')
        pos += HEADER.size
        if pos + plen + dlen > len(raw):
            break                                    # killed while logging
        op = Op()
        op.i, op.kind, op.seq, op.fd, op.res, op.off = len(out), kind, seq, fd, res, off
        op.path = raw[pos:pos + plen].decode('utf8', 'surrogateescape')
        op.data = raw[pos + plen:pos + plen + dlen]
        pos += plen + dlen
        out.append(op)
    return out


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.join(base, d)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


class Inode(object):
    __slots__ = ('data', 'base', 'log', 'synced')

    def __init__(self, data=b''):
        self.data = bytearray(data)
        self.base = bytes(data)      # durable at the beginning
        self.log = []                # (op index, kind, off, bytes) since the beginning
        self.synced = -1             # index of the last fsync


class Model(object):
    """ The disk's content after a prefix of the operations """

    def __init__(self, initial):
        self.names, self.dirs, self.fds = {}, set(), {}
        for path, data in initial.items():
            if data is None:
                self.dirs.add(path)
            else:
                self.names[path] = Inode(data)

    def apply(self, op, cut=None):
        k = op.kind
        if k == OPEN:
            if op.res < 0 or op.fd < 0:
                return
            node = self.names.get(op.path)
            if node is None:
                node = self.names[op.path] = Inode()
            elif op.off & O_TRUNC and len(node.data):
                node.data = bytearray()
                node.log.append((op.i, TRUNC, 0, b''))
            self.fds[op.fd] = node
        elif k == WRITE:
            if op.res <= 0:
                return
            node = self.fds.get(op.fd)
            if node is None:
                return
            data = op.data if cut is None else op.data[:cut]
            put(node.data, op.off, data)
            node.log.append((op.i, WRITE, op.off, data))
        elif k == TRUNC:
            node = self.fds.get(op.fd) if op.fd >= 0 else self.names.get(op.path)
            if node is not None:
                resize(node.data, op.off)
                node.log.append((op.i, TRUNC, op.off, b''))
        elif k == CLOSE:
            self.fds.pop(op.fd, None)
        elif k == RENAME:
            src, dst = op.path, op.data.decode('utf8', 'surrogateescape')
            if src in self.names:
                self.names[dst] = self.names.pop(src)
            else:
                self.dirs.discard(src)
                self.dirs.add(dst)
                for coll in (self.names,):
                    for p in [p for p in coll if p.startswith(src + '/')]:
                        coll[dst + p[len(src):]] = coll.pop(p)
                for p in [p for p in self.dirs if p.startswith(src + '/')]:
                    self.dirs.discard(p)
                    self.dirs.add(dst + p[len(src):])
        elif k == UNLINK:
            self.names.pop(op.path, None)
        elif k == MKDIR:
            self.dirs.add(op.path)
        elif k == RMDIR:
            self.dirs.discard(op.path)
        elif k == LINK:
            node = self.names.get(op.path)
            if node is not None:
                self.names[op.data.decode('utf8', 'surrogateescape')] = node
        elif k == FSYNC:
            if op.path == '*':
                for node in list(self.names.values()):
                    node.synced = op.i
            elif op.fd in self.fds:
                self.fds[op.fd].synced = op.i

    def read(self, path):
        node = self.names.get(path)
        return None if node is None else bytes(node.data)


def put(buf, off, data):
    if off > len(buf):
        buf.extend(b'\0' * (off - len(buf)))
    buf[off:off + len(data)] = data


def resize(buf, n):
    if n < len(buf):
        del buf[n:]
    else:
        buf.extend(b'\0' * (n - len(buf)))


def power_loss(initial, ops, i, j, how, rng):
    """ Content of the disk after power is lost when operations 0..i have been issued.

    Directory changes (and truncations) survive as the prefix 0..j, where j is at least the last
    fsync; data not followed by an fsync of its file is lost, zeroed or partly there (`how`). """
    m = Model(initial)
    last_sync = max([op.i for op in ops[:i + 1] if op.kind == FSYNC] or [-1])
    j = max(j, last_sync)
    opened = {}
    # names and inodes as of j, but file descriptors (for data) as of i
    for op in ops[:i + 1]:
        if op.i <= j:
            m.apply(op)
        elif op.kind in (WRITE, FSYNC, CLOSE):
            m.apply(op)
        elif op.kind == OPEN and op.res >= 0:
            # a file whose creation did not survive is still written to by the program
            node = m.names.get(op.path)
            if node is None or op.off & O_TRUNC:
                node = Inode()
            m.fds[op.fd] = node
    out = {}
    for path, node in m.names.items():
        data = bytearray(node.base)
        pending = []
        for (k, kind, off, d) in node.log:
            if k <= node.synced or kind == TRUNC:
                if kind == TRUNC:
                    # ordered with the directory changes; data before it is gone either way
                    resize(data, off)
                    pending = []
                else:
                    put(data, off, d)
            else:
                pending.append((off, d))
        if pending:
            if how == 'zeroed':
                for off, d in pending:
                    put(data, off, b'\0' * len(d))
            elif how == 'partial':
                keep = rng.randrange(len(pending) + 1)
                for n, (off, d) in enumerate(pending):
                    if n < keep:
                        put(data, off, d)
                    elif n == keep:
                        put(data, off, d[:rng.randrange(len(d) + 1)])
            elif how == 'holes':
                for off, d in pending:
                    put(data, off, d if rng.random() < .5 else b'\0' * len(d))
            elif how == 'kept':
                for off, d in pending:
                    put(data, off, d)
        out[path] = bytes(data)
    return out


# ----------------------------------------------------------------------------- clock
class Clock(object):
    def arm(self, wall=1.6e9, mono=1e5, ticks=(0.001,), jumps=(0.,)):
        n = max(len(ticks), len(jumps))
        t = (ctypes.c_double * n)(*[ticks[i % len(ticks)] for i in range(n)])
        j = (ctypes.c_double * n)(*[jumps[i % len(jumps)] for i in range(n)])
        lib.simclock_arm(wall, mono, n, t, j)

    def advance(self, dt):
        lib.simclock_advance(dt)

    def jump(self, dt):
        lib.simclock_jump(dt)

    def wall(self):
        return lib.simclock_wall()

    def mono(self):
        return lib.simclock_mono()

    def reads(self):
        return lib.simclock_reads()

    def sigint(self, at):
        lib.simclock_sigint(at)

    def disarm(self):
        lib.simclock_disarm()


# ----------------------------------------------------------------------------- external program
class Child(object):
    """ KAWANO as a state machine: read the input, write the output in pieces, end.

    The scheduler (`slices`) decides how far it gets each time the parent lets it run; waiting for
    it runs it to its end. """

    def __init__(self, args, env, behaviour, events):
        self.b = behaviour
        self.env = env or {}
        self.events = events
        self.state = 0
        self.returncode = None
        self.input_text = None
        self.output = b''
        self.code = 0
        self.program = self.script()

    def script(self):
        b = self.b
        inp, outp = self.env.get('INPUT'), self.env.get('OUTPUT')
        mode = b.get('mode', 'ok')
        if mode in ('killed_early',):
            self.code = -b.get('signal', 9)
            return
        yield 'started'
        try:
            with open(inp, 'r') as f:
                self.input_text = f.read()
        except (OSError, TypeError):
            self.input_text = None
            self.events.append(('child', 'no input'))
            self.code = b.get('code', 2)
            return
        self.events.append(('child', 'read', len(self.input_text)))
        yield 'read'
        text = b.get('text', 'KAWANO OUTPUT\n')
        if mode == 'no_output':
            self.code = b.get('code', 0)
            return
        pieces = b.get('pieces', 2)
        try:
            f = open(outp, 'w')
        except (OSError, TypeError):
            self.code = b.get('code', 0) or 2
            return
        try:
            for n in range(pieces):
                part = text[len(text) * n // pieces:len(text) * (n + 1) // pieces]
                f.write(part)
                f.flush()
                if mode == 'killed_late' and n == pieces // 2:
                    self.code = -b.get('signal', 9)
                    return
                yield 'wrote'
        except OSError:
            # its disk failed: dies without leaving anything
            self.code = -6
            return
        finally:
            try:
                f.close()
            except OSError:
                pass
        self.code = b.get('code', 0)

    def advance(self, n=1):
        for _ in range(n):
            if self.returncode is not None:
                return
            try:
                next(self.program)
            except StopIteration:
                self.returncode = self.code
                self.events.append(('child', 'ended', self.code))

    def finish(self):
        while self.returncode is None:
            self.advance()


class SimPopen(object):
    """ Replaces subprocess.Popen.  `world` is set for the time of a simulated run """
    world = None

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **kw):
        w = SimPopen.world
        if w is None:
            raise HarnessError('a process was started outside a simulation: {!r}'.format(args))
        self.args = args
        behaviour = w.next_child()
        w.events.append(('spawn', behaviour.get('mode', 'ok')))
        if w.on_spawn:
            w.on_spawn(self, args, env)
        if behaviour.get('mode') == 'missing':
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(args))
        if behaviour.get('mode') == 'denied':
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(args))
        if behaviour.get('mode') == 'nofork':
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        self.child = Child(args, env, behaviour, w.events)
        w.children.append(self.child)
        self.pid = 40000 + len(w.children)
        self.stdin = _Pipe(self) if stdin == -1 else None
        self.stdout = io.BytesIO() if stdout == -1 else None
        self.stderr = io.BytesIO() if stderr == -1 else None
        self.text = bool(kw.get('text') or kw.get('universal_newlines') or kw.get('encoding'))
        self.child.advance(behaviour.get('slice', 0))

    @property
    def returncode(self):
        # as the real one: known only after somebody waited
        return self._rc if hasattr(self, '_rc') else None

    @returncode.setter
    def returncode(self, v):
        self._rc = v

    def communicate(self, input=None, timeout=None):
        self.wait()
        empty = '' if self.text else b''
        return (empty if self.stdout is not None else None, empty if self.stderr is not None else None)

    def wait(self, timeout=None):
        self.child.finish()
        self._rc = self.child.returncode
        return self._rc

    def poll(self):
        self.child.advance(1)
        if self.child.returncode is not None:
            self._rc = self.child.returncode
        return self.returncode

    def send_signal(self, sig):
        if self.child.returncode is None:
            self.child.returncode = -sig

    def kill(self):
        self.send_signal(9)

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()


class _Pipe(object):
    """ The child's standard input; the child may run while the parent writes """
    def __init__(self, popen):
        self.p = popen

    def write(self, data):
        if self.p.child.returncode is not None:
            raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        self.p.child.advance(1)
        return len(data)

    def flush(self):
        pass

    def close(self):
        pass

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


# ----------------------------------------------------------------------------- terminal
class Terminal(object):
    """ The user's terminal: keeps what was printed """
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.chunks = []
        self.observers = []

    def write(self, text):
        self.chunks.append(text)
        for o in self.observers:
            o(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return ''.join(self.chunks)


class World(object):
    def __init__(self, root):
        self.root = root
        self.disk = Disk(os.path.join(root, 'fs'), os.path.join(root, 'ops.log'))
        os.makedirs(self.disk.root)
        self.clock = Clock()
        self.terminal = Terminal()
        self.events = []
        self.children = []
        self.behaviours = []
        self.on_spawn = None
        self.stats = {}

    def next_child(self):
        return self.behaviours.pop(0) if self.behaviours else {'mode': 'ok'}

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def enter(self):
        SimPopen.world = self
        sys.stdout = self.terminal

    def alone(self, work):
        """ the JSON-able answer of work() computed in a process of its own, forked now """
        import json
        import traceback
        from dst import scen
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                ans = {'ok': work()}
            except scen.Unstable:
                ans = {'unstable': 1}
            except BaseException as e:
                ans = {'error': '{}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc()[-1500:])}
            try:
                with os.fdopen(wfd, 'w') as f:
                    f.write(json.dumps(ans))
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(r) as f:
            raw = f.read()
        os.waitpid(pid, 0)
        ans = json.loads(raw) if raw else {'error': 'no answer'}
        if 'unstable' in ans:
            raise scen.Unstable()
        if 'error' in ans:
            raise RuntimeError('alone: ' + ans['error'])
        return ans['ok']

    def path(self, *p):
        return os.path.join(self.disk.root, *p)
