ID, PROP = 'B09', 'C09'
NEEDS = 'a particle which overshoots the outer longitudinal wall in a domain whose left side has no wall (a partly walled domain)'
BREAKS = 'the reflection condition at the right longitudinal wall asks for the left wall, so the particle is never reflected there'
EDITS = [('src/specieP.cpp', '''      if (pos_z > longitude_wall && geometry->walls[3])
      {
        P_VEL_Z''', '''      if (pos_z > longitude_wall)
      {
        P_VEL_Z''')]
BREAKS = 'a particle which has to be reflected from another wall is also reflected from the right longitudinal side when there is no wall'
NEEDS = 'a particle beyond a corner: behind a radial wall and past the right side of a domain which has no wall there'
FILES = ('c09.cpp', 'specie.hpp')
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
DEMO = '#include "c09.cpp"\n'
