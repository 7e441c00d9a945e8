"""The growing tables behave as lists of rows, also when an operation fails."""
import io

import numpy

from dst import scen, world as W
from dst.props.common import violation

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('one run = one seeded sequence of 5-120 operations (append, extend, truncate, mutation of an appended source, reads, text export) on a table of either kind, with '
        'failing allocations, malformed rows, iterables that fail in the middle and files that fail; after every operation every read is compared with a list of '
        'rows; non-trivial: the table grew past its initial size or an operation failed; distinct by the sequence of operations and their outcome')
MUST_REACH = ['memory_failed', 'malformed_refused', 'file_failed', 'grown', 'truncated', 'empty_truncate', 'iterable_failed', 'self_extend', 'short_write']
ASSUMPTIONS = ['allocations of at least 256 bytes inside the operation are the ones that can fail']
REAL, STUB = ['common.utils containers', 'numpy'], ['memory allocator (failing malloc)', 'the file object exports are written to']


def make_plan(rng, tier):
    kind = rng.choice(['rec', 'rec', '2d'])
    ncol = rng.randint(1, 9) if kind == 'rec' else rng.randint(2, 30)
    ops = []
    n = rng.choice([5, 20, 60, 120])
    grow = rng.choice([.4, .7, .9])
    for _ in range(n):
        r = rng.random()
        mem = rng.randint(1, 4) if rng.random() < .15 else 0
        if r < grow * .7:
            ops.append({'op': 'append', 'seed': rng.randrange(1 << 30), 'form': rng.choice(['dict', 'tuple', 'array', 'row']), 'mem': mem})
        elif r < grow:
            ops.append({'op': 'extend', 'seed': rng.randrange(1 << 30), 'n': rng.choice([0, 1, 2, 7, 20]), 'form': rng.choice(['dict', 'tuple', 'gen', 'self', 'failing']),
                        'at': rng.randrange(8), 'mem': mem})
        elif r < grow + (1 - grow) * .35:
            ops.append({'op': 'truncate', 'n': rng.choice([1, 1, 2, 5])})
        elif r < grow + (1 - grow) * .6:
            ops.append({'op': 'malformed', 'seed': rng.randrange(1 << 30), 'how': rng.choice(['short', 'long', 'text', 'none', 'missing'])})
        elif r < grow + (1 - grow) * .8:
            ops.append({'op': 'savetxt', 'fail': rng.choice([0, 0, 1, 2, 5]), 'short': rng.random() < .3})
        else:
            ops.append({'op': 'mutate', 'seed': rng.randrange(1 << 30)})
    return {'kind': kind, 'ncol': ncol, 'ops': ops, 'units': [rng.choice([1, 1e-3, 1e-12, 5.07e15]) for _ in range(ncol)],
            'names': rng.random() < .5}


class Injected(Exception):
    pass


class BadFile(io.RawIOBase):
    """ a file that fails at the n-th write, or takes only a part at a time """
    def __init__(self, fail, short, w):
        self.fail, self.short, self.n, self.got, self.w = fail, short, 0, b'', w

    def writable(self):
        return True

    def write(self, data):
        self.n += 1
        if self.fail and self.n >= self.fail:
            self.w.count('file_failed')
            raise OSError(28, 'No space left on device')
        data = bytes(data)
        if self.short and len(data) > 3:
            self.w.count('short_write')
            data = data[:len(data) // 2]
        self.got += data
        return len(data)


def execute(plan, w):
    from common.utils import DynamicRecArray, Dynamic2DArray
    import random
    bad = []
    rec = plan['kind'] == 'rec'
    ncol = plan['ncol']
    names = ['c{}'.format(i) for i in range(ncol)]
    units = plan['units']
    if rec:
        t = DynamicRecArray([[n, 'u{}'.format(i) if i % 2 else None, units[i]] for i, n in enumerate(names)])
    else:
        header = numpy.array([float(i) * 1.5 for i in range(ncol)])
        t = Dynamic2DArray(header)
    model = []
    outcome = []
    source = None

    def values(r):
        return [r.choice([r.uniform(-1, 1), r.uniform(0, 1e30), 0., -0., 1e-300, float(r.randrange(1000))]) for _ in range(ncol)]

    def form(v, how):
        if rec:
            return dict(zip(names, v)) if how in ('dict', 'array') else tuple(v)
        return {'dict': list(v), 'tuple': tuple(v), 'array': numpy.array(v)}.get(how, numpy.array(v))

    def same(a, b):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    def look(i, op):
        what = 'after operation {} ({})'.format(i, op)
        if len(t) != len(model):
            return what + ': {} rows instead of {}'.format(len(t), len(model))
        d = t.data
        if len(d) != len(model):
            return what + ': data has {} rows instead of {}'.format(len(d), len(model))
        n = len(model)
        rows = [[float(x) for x in row] for row in d]
        for k in range(n):
            if not same(rows[k], model[k]):
                return what + ': row {} of data is {} instead of {}'.format(k, rows[k][:4], model[k][:4])
        for k in {0, n - 1, n // 2} if n else ():
            for j in (k, k - n):
                if not same([float(x) for x in t[j]], model[k]):
                    return what + ': row [{}] is not the one of the list'.format(j)
        for j in (n, n + 1, -n - 1, -n - 2):
            try:
                got = t[j]
            except IndexError:
                continue
            return what + ': index {} of {} rows is answered with {}'.format(j, n, got)
        if rec:
            for c, name in enumerate(names):
                if not same([float(x) for x in t[name]], [r[c] for r in model]):
                    return what + ': column {} differs'.format(name)
            if n:
                got = [float(x) for x in t.row_repr(-1).split('\t')]
                for c, (g, x) in enumerate(zip(got, model[-1])):
                    if not abs(g - x / units[c]) <= 1e-6 * abs(x / units[c]):
                        return what + ': row_repr gives {!r} for {!r}'.format(g, x / units[c])
        else:
            for sl in (slice(None), slice(-3, None), slice(1, -1), slice(None, None, 2)):
                if not all(same([float(x) for x in a], b) for a, b in zip(t[sl], model[sl])) or len(t[sl]) != len(model[sl]):
                    return what + ': slice {} differs'.format(sl)
        return None

    for i, op in enumerate(plan['ops']):
        kind = op['op']
        r = random.Random(op.get('seed', 0))
        failed = None
        count = 0
        if kind in ('append', 'extend'):
            if kind == 'append':
                v = values(r)
                arg = form(v, op['form'])
                add = [v]
                if op['form'] in ('array', 'row'):
                    source = arg
            elif op['form'] == 'self':
                w.count('self_extend')
                arg = t.data
                if rec:
                    arg = [tuple(x) for x in arg]
                if len(model) > 400:
                    continue
                add = [list(x) for x in model]
            else:
                add = [values(r) for _ in range(op['n'])]
                rows = [form(v, op['form']) for v in add]
                arg = rows
                if op['form'] in ('gen', 'failing'):
                    stop = op['at'] if op['form'] == 'failing' else None

                    def gen():
                        for k, x in enumerate(rows):
                            if k == stop:
                                raise Injected()
                            yield x
                    arg = gen()
                    if stop is not None and stop < len(add):
                        add = add[:stop]
            if op['mem']:
                W.lib.simmem_arm(256, op['mem'])
            try:
                (t.append if kind == 'append' else t.extend)(arg)
            except (MemoryError, SystemError, Injected) as e:       # (numpy forgets to set the exception sometimes)
                failed = e
            finally:
                hits = W.lib.simmem_disarm() if op['mem'] else 0
            if isinstance(failed, (MemoryError, SystemError)) or hits:
                w.count('memory_failed')
            if isinstance(failed, Injected):
                w.count('iterable_failed')
            if failed is None:
                model.extend(add)
            else:
                # rows before the one that failed stay; the failed one leaves nothing
                n = len(t) - len(model)
                if kind == 'append' and n != 0:
                    bad.append(violation('failed append', 'operation {}: the append failed with {!r}, but the table went from {} to {} rows'.format(i, failed, len(model), len(t))))
                    break
                if not 0 <= n <= len(add):
                    bad.append(violation('failed extend', 'operation {}: the extension failed with {!r}, the table went from {} to {} rows'.format(i, failed, len(model), len(t))))
                    break
                if isinstance(failed, Injected) and n != len(add):
                    bad.append(violation('failed extend', 'operation {}: {} rows came before the failure, {} are there'.format(i, len(add), n)))
                    break
                model.extend(add[:n])
        elif kind == 'truncate':
            for _ in range(op['n']):
                try:
                    t.truncate()
                    if not model:
                        bad.append(violation('truncate', 'operation {}: an empty table was truncated'.format(i)))
                        break
                    model.pop()
                    w.count('truncated')
                except IndexError as e:
                    failed = e
                    w.count('empty_truncate')
                    if model:
                        bad.append(violation('truncate', 'operation {}: {!r} with {} rows'.format(i, e, len(model))))
                        break
        elif kind == 'malformed':
            v = values(r)
            how = op['how']
            if how == 'short':
                if ncol < 3:
                    continue
                arg = tuple(v[:2])
            elif how == 'long':
                arg = tuple(v + [1.])
            elif how == 'missing' and rec:
                arg = dict(list(zip(names, v))[:-1])
            elif how == 'text':
                arg = tuple(v[:-1] + ['no number'])
            else:
                arg = tuple(v[:-1] + [object()])
            if ncol == 1 and how not in ('long', 'missing', 'text', 'none'):
                continue
            try:
                t.append(arg)
            except Exception as e:
                failed = e
                w.count('malformed_refused')
            else:
                bad.append(violation('malformed row', 'operation {}: a malformed row ({}) was accepted'.format(i, how)))
                break
        elif kind == 'savetxt':
            raw = BadFile(op['fail'], op['short'], w)
            f = io.BufferedWriter(raw, 256)
            try:
                t.savetxt(f)
                f.flush()
            except OSError as e:
                failed = e
            if failed is None:
                lines = raw.got.decode().split('\n')
                if lines[-1] != '' or not lines[0].startswith('# ') or len(lines) != len(model) + 2:
                    bad.append(violation('text export', 'operation {}: {} lines for {} rows'.format(i, len(lines) - 2, len(model))))
                    break
                head = lines[0][2:].split('\t')
                if len(head) != ncol or (rec and not all(h.startswith(n) for h, n in zip(head, names))):
                    bad.append(violation('text export', 'operation {}: heading {}'.format(i, head)))
                    break
                for k, line in enumerate(lines[1:-1]):
                    got = [float(x) for x in line.split('\t')]
                    exp = [x / u for x, u in zip(model[k], units)] if rec else model[k]
                    if len(got) != ncol or any(abs(a - b) > 1e-14 * abs(b) for a, b in zip(got, exp)):
                        bad.append(violation('text export', 'operation {}: row {} is {} instead of {}'.format(i, k, got[:3], exp[:3])))
                        break
            elif not op['fail']:
                bad.append(violation('text export', 'operation {}: {!r} from a file that does not fail'.format(i, failed)))
            try:
                raw.fail = 0
                f.detach()
            except Exception:
                pass
        elif kind == 'mutate':
            if source is not None and not rec:
                source[:] = r.uniform(5, 6)
            elif isinstance(source, dict):
                for k in source:
                    source[k] = -1.
        outcome.append((kind, type(failed).__name__ if failed else '', len(model)))
        if bad:
            break
        problem = look(i, kind + (', failed with {!r}'.format(failed) if failed else ''))
        if problem:
            bad.append(violation('not a list', problem))
            break
    w.count('operations', len(outcome))
    w.count('grown', int(max([o[2] for o in outcome] or [0]) > 10))
    w.count('nontrivial', int(any(o[1] for o in outcome) or max([o[2] for o in outcome] or [0]) > 10))
    w.digest = scen.digest([plan['kind'], ncol, outcome])
    return bad
