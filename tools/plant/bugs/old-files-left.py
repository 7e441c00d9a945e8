PROPERTY = 'C18'
EDITS = [
    ('evolution.py',
     '                shutil.rmtree(folder)\n',
     '                shutil.rmtree(folder, ignore_errors=True)\n'),
]
NEEDS = 'old files in the folder that cannot be removed'
BREAKS = 'the creation succeeds although old results are left in the folder'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
os.makedirs(folder)
open(os.path.join(folder, 'kawano_output.dat'), 'w').write('old')
real, ru = os.unlink, os.rmdir
def fail(p, *a, **k):
    raise PermissionError(13, 'Permission denied', p)
os.unlink = os.remove = fail
failed = False
try:
    with quiet():
        universe(folder=folder)
except OSError:
    failed = True
os.unlink = os.remove = real
left = os.path.exists(os.path.join(folder, 'kawano_output.dat'))
ok(failed or not left, 'old results are still in the folder of the new run and nobody was told')
'''
