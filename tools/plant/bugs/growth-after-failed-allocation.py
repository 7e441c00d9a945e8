PROPERTY = 'C21'
EDITS = [
    ('common/utils.py',
     '        if self.length == self.size or self.length == len(self._data) - 2:\n            self.size = int(1.5*self.size)\n            self._data = numpy.resize(self._data, (self.size, len(self.header)))\n',
     '        if self.length == self.size:\n            self.size = int(1.5*self.size)\n            self._data = numpy.resize(self._data, (self.size, len(self.header)))\n'),
]
NEEDS = 'an append for which there was no memory, followed by further ones'
BREAKS = 'after a failed growth the table refuses to grow for good'
DEMO = r'''
from bbn import *
from common.utils import Dynamic2DArray
d = Dynamic2DArray([1., 2., 3.])
real, bad = numpy.resize, [1]
def resize(*a, **k):
    if bad[0]:
        bad[0] = 0
        raise MemoryError()
    return real(*a, **k)
numpy.resize = resize
for i in range(20):
    try:
        d.append([i] * 3)
    except MemoryError:
        try:
            d.append([i] * 3)
        except IndexError:
            ok(False, 'after an append for which there was no memory the table cannot grow any more')
ok(len(d) == 20 and (d.data[:, 0] == numpy.arange(20)).all(), 'wrong rows')
'''
