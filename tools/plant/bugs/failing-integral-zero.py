PROPERTY = 'C08'
EDITS = [
    ('particles/__init__.py',
     '        return self.calculate_collision_integral(self.grid.TEMPLATE)\n',
     '        try:\n            return self.calculate_collision_integral(self.grid.TEMPLATE)\n        except ArithmeticError as e:\n            # One step without collisions does no harm\n            print("{}: {}".format(self.symbol, e))\n            return numpy.zeros(len(self.grid.TEMPLATE))\n'),
]
NEEDS = 'a collision integral that fails with an arithmetic error'
BREAKS = 'a failed collision integral is replaced by zero and the step is recorded'
DEMO = r'''
from bbn import *
u = universe(T=3.)
steps(u, 2, first=True)
def bad(n, ps, reaction, out):
    raise FloatingPointError('quadrature failed')
hand.hook = bad
failed = False
try:
    steps(u, 1)
except FloatingPointError:
    failed = True
ok(failed, 'the collision integral failed and the step was recorded as if it had not')
'''
