ID, PROP = 'B22', 'C22'
NEEDS = 'a beam of at least three bunches'
BREAKS = 'the third bunch follows the second without the configured distance'
EDITS = [('src/beamP.cpp', 'double bunch_start_time = start_time + (bunch_length + bunches_distance) / velocity * current_bunch_number;',
          'double bunch_start_time = start_time + bunch_length / velocity * current_bunch_number + (current_bunch_number ? bunches_distance / velocity : 0);')]
SRCS = ['src/beamP.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c22.cpp', 'specie.hpp')
DEMO = '#include "c22.cpp"\n'
