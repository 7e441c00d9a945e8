PROPERTY = 'C18'
EDITS = [
    ('evolution.py',
     '                shutil.rmtree(folder)\n',
     "                for name in ('log.txt', 'evolution.txt', 'kawano.txt', 'kawano_output.dat'):\n                    if os.path.exists(os.path.join(folder, name)):\n                        os.remove(os.path.join(folder, name))\n"),
]
NEEDS = 'a folder of an earlier run with KAWANO reused by one without'
BREAKS = 'the KAWANO input of the earlier run survives in the folder of the new one'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
os.makedirs(folder)
open(os.path.join(folder, 's4.dat'), 'w').write('old input\n')
with quiet():
    u = universe(folder=folder)
ok(not os.path.exists(os.path.join(folder, 's4.dat')), 'the input of an earlier run is still there')
'''
