ID, PROP = 'B22b', 'C22'
NEEDS = 'a block of several radial domains and a beam whose edge lies in a domain away from the axis'
BREAKS = 'the part of the beam in the domain is measured from the axis, so the outer domain injects too much and outside of the beam'
EDITS = [('src/beamP.cpp', 'domain_radius = radius - geometry->cell_dims[0] * geometry->cell_size[0];', 'domain_radius = radius < geometry->size[0] ? radius : geometry->size[0];')]
SRCS = ['src/beamP.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c22.cpp', 'specie.hpp')
DEMO = '#include "c22.cpp"\n'
