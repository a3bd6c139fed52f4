ID, PROP = 'B24b', 'C24'
NEEDS = 'a rectangular probe whose window is reversed along one axis only'
BREAKS = 'the window is accepted'
EDITS = [('src/cfg.cpp', 'if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])', 'if (p_p.dims[0] > p_p.dims[2] && p_p.dims[1] > p_p.dims[3])')]
SRCS = ['src/cfg.cpp', 'src/algo/common.cpp', 'src/phys/plasma.cpp']
FILES = ('c24.cpp',)
DEMO = '#include "c24.cpp"\n'
