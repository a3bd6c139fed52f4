ID, PROP = 'B20', 'C20'
NEEDS = 'a particle which crosses a radial cell border (ZigZag current solver)'
BREAKS = 'the relay point is placed half way instead of on the border passed, so the two parts of the path overlap cells'
EDITS = [('include/current/currentZigZag.hpp', 'max( max((i1) * (dx), (i2) * (dx)), ((x1) + (x2)) / 2.));', 'max( min((i1) * (dx), (i2) * (dx)), ((x1) + (x2)) / 2.));')]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp', 'src/current/currentZigZag.cpp']
FILES = ('c20.cpp', 'specie.hpp')
DEMO = '#include "c20.cpp"\n'
CFG = {'SWITCH_CCS_VB': None, 'SWITCH_CCS_ZIGZAG': 'true'}
