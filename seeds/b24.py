ID, PROP = 'B24', 'C24'
NEEDS = 'a beam of several bunches next to plasma species'
BREAKS = 'beams get the macroparticles of one bunch only, although all bunches count in the normalisation'
EDITS = [('src/cfg.cpp', '''    double beam_z_grid_size = (*b).bunch_length * (*b).bunches_amount / geometry->cell_size[1];

    (*b).macro_amount''', '''    double beam_z_grid_size = (*b).bunch_length / geometry->cell_size[1];

    (*b).macro_amount''')]
SRCS = ['src/cfg.cpp', 'src/algo/common.cpp', 'src/phys/plasma.cpp']
FILES = ('c24.cpp',)
DEMO = '#include "c24.cpp"\n'
