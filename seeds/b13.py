ID, PROP = 'B13', 'C13'
NEEDS = 'a domain at the left wall with non-zero conductivity or current at the wall cells'
BREAKS = 'E_z at the left wall misses the decay factor of the absorbing layer'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', '''      field_e[2].m_a(i, k, koef_e);
      field_e[2].dec(i, k, (curr(2, i, k)
                            - (field_h_at_et(1, i, k) - field_h_at_et(1, i - 1, k)) / dr
                            - (field_h_at_et(1, i, k) + field_h_at_et(1, i-1, k))
''', '''      field_e[2].m_a(i, k, 1.);
      field_e[2].dec(i, k, (curr(2, i, k)
                            - (field_h_at_et(1, i, k) - field_h_at_et(1, i - 1, k)) / dr
                            - (field_h_at_et(1, i, k) + field_h_at_et(1, i-1, k))
''')]
SRCS = ['src/maxwellSolver/maxwellSolverYee.cpp']
FILES = ('c13.cpp',)
DEMO = '#include "c13.cpp"\n'
