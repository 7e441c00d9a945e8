"""Which lines of the repository the simulated runs reach (DST_COV=directory): to find what the generators never touch."""
import os
import sys

REPO = os.path.realpath(os.environ.get('PYBBN_REPO', '/repo'))
seen = set()


def start():
    m = sys.monitoring
    m.use_tool_id(3, 'linecov')

    def line(code, n):
        f = code.co_filename
        if f.startswith(REPO):
            seen.add((f[len(REPO) + 1:], n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def dump(folder):
    with open(os.path.join(folder, str(os.getpid())), 'w') as f:
        f.writelines('{}:{}\n'.format(*x) for x in sorted(seen))


def report(folder):
    import ast
    got = {}
    for n in os.listdir(folder):
        for l in open(os.path.join(folder, n)):
            a, b = l.rsplit(':', 1)
            got.setdefault(a, set()).add(int(b))
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('tests', '.git', 'docs', 'KAWANO')]
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(base, f)
            rel = p[len(REPO) + 1:]
            lines = set()
            for node in ast.walk(ast.parse(open(p).read())):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    for s in ast.walk(node):
                        if isinstance(s, ast.stmt) and s is not node and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            lines.add(s.lineno)
            miss = sorted(lines - got.get(rel, set()))
            if lines:
                print('{}: {} of {}'.format(rel, len(lines) - len(miss), len(lines)))
                if miss and len(miss) < len(lines):
                    src = open(p).read().split('\n')
                    for n in miss:
                        print('   ', n, src[n - 1].strip()[:100])


if __name__ == '__main__':
    report(sys.argv[1])
