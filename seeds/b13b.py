ID, PROP = 'B13b', 'C13'
NEEDS = 'a domain at the left wall that does not start at the axis'
BREAKS = 'the curl at the left wall uses the radius inside the domain instead of the global one'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '(2. * dr * (i + geometry->cell_dims[0])))\n                     * koef_h);', '(2. * dr * i))\n                     * koef_h);')]
SRCS = ['src/maxwellSolver/maxwellSolverYee.cpp']
FILES = ('c13.cpp',)
DEMO = '#include "c13.cpp"\n'
