PROPERTY = 'C07'
EDITS = [
    ('kawano.py',
     '    with open(os.path.join(data_folder, output), "r") as kawano_output:\n        return kawano_output.read()\n',
     '    try:\n        with open(os.path.join(data_folder, output), "r") as kawano_output:\n            return kawano_output.read()\n    except IOError:\n        return ""\n'),
]
NEEDS = 'an external program that ends without leaving an output file (for instance because it refuses its input)'
BREAKS = 'a missing output of KAWANO is reported as an empty success'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
os.makedirs(folder)
prog = os.path.join(os.environ['SCRATCH'], 'kawano')
open(prog, 'w').write('#!/bin/sh\nexit 0\n')
os.chmod(prog, 0o755)
os.environ['KAWANO'] = prog
import kawano
open(os.path.join(folder, 's4.dat'), 'w').write('x\n')
failed = False
try:
    kawano.run(folder)
except Exception:
    failed = True
ok(failed, 'the program left no output and nobody was told')
'''
