PROPERTY = 'C07'
EDITS = [
    ('kawano.py',
     '    p.communicate(bytes(os.linesep.join([',
     '    p.stdin.write(bytes(os.linesep.join(['),
    ('kawano.py',
     '        "", "", "", ""\n    ]), \'utf-8\'))\n',
     '        "", "", "", ""\n    ]), \'utf-8\'))\n    p.stdin.close()\n    # The program sometimes hangs after its output is there\n    while p.poll() is None and not os.path.exists(os.path.join(data_folder, output)):\n        time.sleep(0.05)\n    p.returncode = p.poll() or 0\n'),
    ('kawano.py',
     'import os\nimport itertools',
     'import os\nimport time\nimport itertools'),
]
NEEDS = 'an external program that writes its output in more than one piece'
BREAKS = 'the output is read as soon as the file appears, before the program has ended'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
os.makedirs(folder)
prog = os.path.join(os.environ['SCRATCH'], 'kawano')
open(prog, 'w').write('#!/bin/sh\necho first > "$OUTPUT"\nsleep 1\necho last >> "$OUTPUT"\n')
os.chmod(prog, 0o755)
os.environ['KAWANO'] = prog
import kawano
open(os.path.join(folder, 's4.dat'), 'w').write('x\n')
out = kawano.run(folder)
ok(out == 'first\nlast\n', 'a part of the output was reported: {!r}'.format(out))
'''
