"""Writes /verif/known_findings.json."""
import json, os, subprocess
FIXED = [
 ('C01','acd9916','modules imported integrator names that do not exist'),
 ('C22','b2465f1','the Adams-Moulton correction used the increment as the collision integral'),
 ('C01','69979d7','a float number of samples went to linspace'),
 ('C08','109ddfa','reaction_type was called without the integral in Icoll_fast_decay'),
 ('C10','3500281','the scaling result was compared with False element by element'),
 ('C02','41201c6','all universes of a process shared one history'),
 ('C02','11f4b82','the rates were computed with the particles of the last universe built'),
 ('C02','d9294ff','the HNL energy was a global of the process'),
 ('C03','adef0e9','a crash or a reader during an export met a cut table (also C04, C05)'),
 ('C07','ee313cb','a failing KAWANO lost the results'),
 ('C07','f1831a0','stale or partial KAWANO output was reported'),
 ('C09','1bbcf82','continuing recorded the current state twice'),
 ('C22','cf41ba4','the initial row entered the history of temperature derivatives'),
 ('C08','b959491','a retried step counted the collision integrals of the failed one again'),
 ('C08','6c9539a','numpy print options stayed changed after a failure'),
 ('C16','7a026ac','progress lines stopped after the clock was set back'),
 ('C21','9973596','indexing and truncation reached beyond the used length'),
 ('C11','0d7113f','the upper bound of one momentum was used for the following ones of the same thread'),
 ('C12','f35790a','a failure on a worker thread aborted the program'),
 ('C01','0d3c667','a universe without a folder could not compute the KAWANO rates'),
 ('C13','a39bd75','with the linear time step the plasma was heated by the wrong amount'),
 ('C09','5efc6ef','a computation with KAWANO could not be continued after an export'),
 ('C15','4b39e31','Ctrl-C inside a three-particle integral was swallowed (also C08)'),
 ('C20','002147d','the QCD transition rescaled the initial temperature instead of the current one'),
 ('C21','6396e39','tables of one column were exported in one row'),
 ('C08','3fa4535','quickly decaying species kept the distribution and the number of created particles of a failed step'),
 ('C13','54d481f','between grid points the collision integral was extrapolated from the neighbouring cell'),
]
FINDINGS = [
 {'id': 'relativistic-decoupling-environment', 'property': 'C02', 'class': 'the library writes Relativistic_decoupling into the environment',
  'contains': 'for another universe changes this one',
  'what': 'kinematics.decoupling_temperature and grid_params_HNL write os.environ["Relativistic_decoupling"], which switches the scatterings of sterile neutrinos off '
          'below 1/15 of the initial temperature in every universe of the process'},
]
doc = {'findings': FINDINGS, 'fixed': ['fixed: property={} {} {}'.format(*f) for f in FIXED]}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w') as f:
    json.dump(doc, f, indent=1); f.write('\n')
