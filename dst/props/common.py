"""Helpers shared by the property modules."""
import os
import numpy

from dst import world as W


def rand_clock(rng):
    """ a clock: base reading, tick sizes between readings, jumps """
    kind = rng.choice(['steady', 'fast', 'slow', 'stall', 'back', 'forth', 'wild', 'zero'])
    wall = rng.choice([1.6e9, 0., 86400., 2.0e9, 4.1e9])
    if kind == 'steady':
        t, j = [0.001], [0.]
    elif kind == 'fast':
        t, j = [1e-7], [0.]
    elif kind == 'slow':
        t, j = [rng.choice([1., 60., 7200.])], [0.]
    elif kind == 'stall':
        t, j = [0.01] * rng.randint(1, 9) + [3e5], [0.]
    elif kind == 'back':
        n = rng.randint(2, 40)
        t, j = [0.05], [0.] * n + [-rng.choice([1., 3600., 1e8])]
    elif kind == 'forth':
        n = rng.randint(2, 40)
        t, j = [0.05], [0.] * n + [rng.choice([1., 3600., 1e8])]
    elif kind == 'zero':
        t, j = [0.], [0.]
    else:
        t = [rng.choice([0., 1e-6, .01, 1., 100.]) for _ in range(17)]
        j = [rng.choice([0., 0., 0., -5., 5., -1e4, 1e4]) for _ in range(23)]
    return {'kind': kind, 'wall': wall, 'ticks': t, 'jumps': j}


def arm_clock(w, c):
    w.clock.arm(wall=c['wall'], mono=1e5, ticks=c['ticks'], jumps=c['jumps'])


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


class BadTable(Exception):
    pass


def parse_table(raw, ncols=None):
    """ numpy.savetxt format: '# ' heading, tab separated numbers, newline terminated """
    text = raw.decode('utf8', 'replace')
    if not text.endswith('\n'):
        raise BadTable('the last line is cut ({} bytes)'.format(len(raw)))
    lines = text[:-1].split('\n')
    if not lines[0].startswith('#'):
        raise BadTable('no heading')
    heading = lines[0][1:].strip().split('\t')
    if ncols is not None and len(heading) != ncols:
        raise BadTable('heading has {} columns instead of {}'.format(len(heading), ncols))
    rows = []
    for n, line in enumerate(lines[1:]):
        try:
            row = [float(x) for x in line.split('\t')]
        except ValueError:
            raise BadTable('row {} is not numeric: {!r}'.format(n, line[:80]))
        if len(row) != len(heading):
            raise BadTable('row {} has {} columns instead of {}'.format(n, len(row), len(heading)))
        rows.append(row)
    return heading, rows


def expected_rows(table):
    """ rows of a DynamicRecArray in export units, column by column through its public reads """
    cols = [numpy.array(table[c], dtype=float) / u for c, u in zip(table.columns, table.units)]
    return [list(r) for r in zip(*cols)] if len(table) else []


def same_rows(got, want, tol=1e-12):
    """ index of the first differing row or None """
    for i, (g, e) in enumerate(zip(got, want)):
        for a, b in zip(g, e):
            if a == b or (a != a and b != b):
                continue
            if not abs(a - b) <= tol * max(abs(a), abs(b)):
                return i
    return None


def check_table(raw, columns, want):
    """ None, or what is wrong with `raw` as a table of the first n rows of `want`; returns (n, problem) """
    try:
        heading, rows = parse_table(raw, len(columns))
    except BadTable as e:
        return None, str(e)
    for h, c in zip(heading, columns):
        if not h.startswith(c):
            return None, 'heading {!r} where {!r} was expected'.format(h, c)
    if len(rows) > len(want):
        return None, '{} rows, but only {} were recorded'.format(len(rows), len(want))
    bad = same_rows(rows, want)
    if bad is not None:
        return None, 'row {} is not the recorded one: {} against {}'.format(bad, rows[bad][:4], want[bad][:4])
    return len(rows), None


def violation(cls, detail, **kw):
    d = {'class': cls, 'detail': detail}
    d.update(kw)
    return d


class Tables(object):
    """ What a universe with a folder shall show: its two tables, against what it recorded """

    def __init__(self, s, folder):
        self.folder = folder
        self.u = s.u
        self.paths = {'evolution.txt': (lambda: s.u.data)}
        if s.spec.get('kawano'):
            self.paths['kawano.txt'] = lambda: s.u.kawano_data

    def wanted(self):
        """ call at the end: {path: (columns, rows)} """
        out = {}
        for name, get in self.paths.items():
            d = get()
            out[os.path.join(self.folder, name)] = (list(d.columns), expected_rows(d))
        return out

    def complete(self):
        """ None, or what is missing right now (reading the real files) """
        for path, (cols, rows) in self.wanted().items():
            raw = read(path)
            if raw is None:
                return '{} is not there'.format(os.path.basename(path))
            n, problem = check_table(raw, cols, rows)
            if problem:
                return '{}: {}'.format(os.path.basename(path), problem)
            if n != len(rows):
                return '{} has {} of {} rows'.format(os.path.basename(path), n, len(rows))
        return None

    def whole(self, wanted=None):
        """ None, or which table is damaged right now """
        for path, (cols, rows) in (wanted or self.wanted()).items():
            raw = read(path)
            if raw is not None:
                n, problem = check_table(raw, cols, rows)
                if problem:
                    return '{}: {}'.format(os.path.basename(path), problem)
        return None


def mark_rows(s, w):
    """ note in the operation log how many rows the universe has, each time it gets one """
    def wrap(table, tag):
        orig = table.append

        def append(rec):
            r = orig(rec)
            k = len(s.u.kawano_data) if s.spec.get('kawano') else 0
            w.disk.mark('rows {} {}'.format(len(s.u.data), k))
            return r
        table.append = append
    wrap(s.u.data, 'd')
    if s.spec.get('kawano'):
        wrap(s.u.kawano_data, 'k')


def walk_tables(initial, ops, wanted, visit):
    """ Replays the operations.  visit(i, op, {path: n or None}, problem) after each operation that
    may have changed a table; also for torn versions of a write into a table. """
    m = W.Model(initial)
    seen = {}

    def look(model):
        for path, (cols, rows) in wanted.items():
            raw = model.read(path)
            if raw is None:
                yield path, None, None
                continue
            key = (path, raw)
            if key not in seen:
                seen[key] = check_table(raw, cols, rows)
            n, problem = seen[key]
            yield path, n, problem
    for op in ops:
        if op.kind == W.WRITE and op.res > 0:
            node = m.fds.get(op.fd)
            if node is not None and any(m.names.get(p) is node for p in wanted):
                keep = bytes(node.data)
                for cut in sorted({0, 1, len(op.data) // 2, len(op.data) - 1}):
                    node.data = bytearray(keep)
                    W.put(node.data, op.off, op.data[:cut])
                    visit(op, list(look(m)), True)
                node.data = bytearray(keep)
        m.apply(op)
        visit(op, list(look(m)), False)
    return m
