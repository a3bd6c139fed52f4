ID, PROP = 'B17', 'C17'
NEEDS = 'a vector product whose first factor has a non-zero radial component'
BREAKS = 'the vector product is written over its own input while it is being computed'
EDITS = [('include/math/vector3d.hpp', 'vector3d vtmp = *this;', 'vector3d &vtmp = *this;')]
FILES = ('c17.cpp',)
SRCS = []
DEMO = '#include "c17.cpp"\n'
