PROPERTY = 'C16'
EDITS = [
    ('common/utils.py',
     '        self.log = codecs.open(filename, "wb", encoding="utf8")\n',
     '        self.log = codecs.open(filename, "wb", encoding="latin-1", errors="replace")\n'),
]
NEEDS = 'text outside of Latin-1, as in the progress lines'
BREAKS = 'characters in the log differ from the ones on the terminal'
DEMO = r'''
from bbn import *
folder = os.path.join(os.environ['SCRATCH'], 'out')
u = universe(folder=folder, T=3., rate=0, weak=False)
with quiet() as out:
    u.evolve(2.5 * MeV, export=False)
sys.stdout.log.flush()
text = open(os.path.join(folder, 'log.txt'), 'rb').read().decode('utf8', 'replace')
ok('\u03b4aT/aT' in text, 'the log is not what was printed')
'''
