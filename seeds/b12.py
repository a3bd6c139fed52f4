ID, PROP = 'B12', 'C12'
NEEDS = 'a domain that does not start at the axis (radial domain offset above zero)'
BREAKS = 'the radius in the curl is local to the domain instead of global, so the longitudinal magnetic field gets divergence'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '(2. * dr * (i + 0.5 + geometry->cell_dims[0]))', '(2. * dr * (i + 0.5))')]
SRCS = ['src/maxwellSolver/maxwellSolverYee.cpp']
FILES = ('c12.cpp',)
DEMO = '#include "c12.cpp"\n'
