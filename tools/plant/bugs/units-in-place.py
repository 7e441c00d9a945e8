PROPERTY = 'C09'
EDITS = [
    ('common/utils.py',
     """        numpy.savetxt(
            f,
            self.data.view((numpy.float_, (len(self._data.dtype),))) / self.units[None, :],
            delimiter='\\t', header='\\t'.join(heading)
        )
""",
     """        # No copy of a long table
        table = self.data.view((numpy.float_, (len(self._data.dtype),)))
        table /= self.units[None, :]
        numpy.savetxt(f, table, delimiter='\\t', header='\\t'.join(heading))
        table *= self.units[None, :]
"""),
]
NEEDS = 'an export in the middle of a computation that is continued (or one that fails)'
BREAKS = 'the history is converted to the units of the file and back in place: rounding changes it, and a failing export leaves it converted'
DEMO = r'''
from bbn import *
a = universe(folder=None, T=3.)
b = universe(folder=None, T=3.)
hand.calls = 0
steps(a, 12, first=True)
steps(b, 6, first=True)
class Full(object):
    def write(self, data):
        raise OSError(28, 'No space left on device')
try:
    b.data.savetxt(Full())
except OSError:
    pass
steps(b, 6)
ok(history(a) == history(b), 'a failed export changed the history')
'''
