ID, PROP = 'B12b', 'C12'
NEEDS = 'a grid of cells whose two sides differ, with a radial electric field that changes along z'
BREAKS = 'the azimuthal magnetic field takes the longitudinal derivative with the radial cell size'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '- (field_e(0, i, k+1) - field_e(0, i, k)) / dz)', '- (field_e(0, i, k+1) - field_e(0, i, k)) / dr)')]
SRCS = ['src/maxwellSolver/maxwellSolverYee.cpp']
FILES = ('c12.cpp',)
DEMO = '#include "c12.cpp"\n'
