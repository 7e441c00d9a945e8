PROPERTY = 'C22'
EDITS = [
    ('common/integrators/__init__.py',
     "    fs = fs[-(order-1):] + [A]\n",
     "    fs = fs[:order-1] + [A]\n"),
]
NEEDS = 'more steps than the order of the multistep method; the demonstration compares with the exact solution of df/dt = cos t'
BREAKS = 'the Adams-Moulton solver uses the oldest derivatives instead of the latest once the history is longer than the order'
DEMO = r'''
from bbn import *
from common.integrators import adams_moulton_solver
h, y, fs = .01, 0., []
for i in range(60):
    t = (i + 1) * h
    new = adams_moulton_solver(y=y, fs=list(fs), A=numpy.cos(t), B=0., h=h)
    fs.append(numpy.cos(t))
    y = new
ok(abs(y - numpy.sin(.6)) < .02 * numpy.sin(.6), 'integral of cos over 0..0.6 is {} instead of {}'.format(y, numpy.sin(.6)))
'''
