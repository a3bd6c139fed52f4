ID, PROP = 'B14', 'C14'
NEEDS = 'a domain with a non-zero longitudinal offset'
BREAKS = 'the radial magnetic component is gathered with the longitudinal shift of the axial component (the half-cell neighbour is off by one for part of the cell)'
EDITS = [('include/maxwellSolver.hpp', '''    k_z = CELL_NUMBER(longitude - 0.5 * dz, dz);
    i_r_shift = i_r - geometry->cell_dims[0];
    k_z_shift = k_z - geometry->cell_dims[1];
    // // TODO: workaround: sometimes it gives -1.
    // // Just get 0 cell if it happence
    // if (i_r < 0) i_r = 0;
    // if (k_z < 0) k_z = 0;

    vol_1 = CELL_VOLUME(i_r, dr, dz);
    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);

    r2 =''', '''    k_z = CELL_NUMBER(longitude - 0.5 * dz, dz);
    i_r_shift = i_r - geometry->cell_dims[0];
    // // TODO: workaround: sometimes it gives -1.
    // // Just get 0 cell if it happence
    // if (i_r < 0) i_r = 0;
    // if (k_z < 0) k_z = 0;

    vol_1 = CELL_VOLUME(i_r, dr, dz);
    vol_2 = CELL_VOLUME(i_r + 1, dr, dz);

    r2 =''')]
NEEDS = 'a particle in the left half of a cell (its longitudinal half-lattice cell differs from its cell)'
FILES = ('c14.cpp', 'yee.hpp')
SRCS = ['src/maxwellSolver/maxwellSolverYee.cpp']
DEMO = '#include "c14.cpp"\n'
