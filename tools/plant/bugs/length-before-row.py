PROPERTY = 'C21'
EDITS = [
    ('common/utils.py',
     '            self._data = numpy.resize(self._data, self.size)\n        self._data[self.length] = rec\n        self.length += 1\n',
     '            self._data = numpy.resize(self._data, self.size)\n        self.length += 1\n        self._data[self.length - 1] = rec\n'),
]
NEEDS = 'an append that fails because the row is malformed'
BREAKS = 'a failed append leaves an empty row behind'
DEMO = r'''
from bbn import *
from common.utils import DynamicRecArray
d = DynamicRecArray([['a', '', 1.], ['b', '', 1.]])
d.append((1., 2.))
try:
    d.append((1., 'not a number'))
except Exception:
    pass
ok(len(d) == 1, 'a failed append left a row')
'''
