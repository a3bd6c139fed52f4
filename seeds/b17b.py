ID, PROP = 'B17b', 'C17'
NEEDS = 'two vectors that differ in the last component only'
BREAKS = 'such vectors count as not different'
EDITS = [('include/math/vector3d.hpp', '            || vec3d[1] != rhs.vec3d[1]\n            || vec3d[2] != rhs.vec3d[2]);', '            || vec3d[1] != rhs.vec3d[1]);')]
SRCS = []
FILES = ('c17.cpp',)
DEMO = '#include "c17.cpp"\n'
