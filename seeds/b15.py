ID, PROP = 'B15', 'C15'
NEEDS = 'two or more domains: the magnetic halo is exchanged before the magnetic field is advanced'
BREAKS = 'the exchange of the magnetic field uses the fields of the previous step, so borders of domains hold stale sums'
EDITS = [("src/SMB.cpp", '''  field_e_overlay();

#pragma omp parallel for collapse(2)
  for (unsigned int i=0; i < r_domains; i++)
    for (unsigned int j = 0; j < z_domains; j++)
    {
      Domain *sim_domain = domains(i, j);

      // ! 2. Calculate magnetic field (H)
      sim_domain->weight_field_h(); // +
    }
  field_h_overlay();
''', '''  field_e_overlay();
  field_h_overlay();

#pragma omp parallel for collapse(2)
  for (unsigned int i=0; i < r_domains; i++)
    for (unsigned int j = 0; j < z_domains; j++)
    {
      Domain *sim_domain = domains(i, j);

      // ! 2. Calculate magnetic field (H)
      sim_domain->weight_field_h(); // +
    }
''')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c15.cpp', 'smb.hpp']
DEMO = '#include "c15.cpp"\n'
