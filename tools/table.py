T = 'The six stable unit tests only compare six physical constants'
prop('C01', 'Grid element and bulk operations touch exactly the addressed cells',
     'Reading, writing, incrementing, decrementing or multiplying cell (x, y) of a two-dimensional or three-component grid acts on exactly the inner '
     'cell addressed by (x, y) behind the halo, and on no other cell or component. Whole-grid assignments and grid-by-grid additions act on every cell '
     'they are documented to cover (inner cells or inner cells plus halo) exactly once, leave the operand unchanged, and refuse grids of different size.',
     ['inputs', 'configurations'], 'for every grid size, halo width, cell index, value and previous grid content',
     T + '; the grid tests that exist use one size and a few indices and cannot cover all sizes, halos, indices, components and contents.',
     ['include/algo/grid.hpp', 'include/algo/grid3d.hpp'],
     [('halo-offset addressing', 'include/algo/grid.hpp: set/inc/dec/m_a/operator()'), ('component dispatch', 'include/algo/grid3d.hpp: operator[], set, inc, dec')],
     'All obligations proved for symbolic sizes, halo widths and contents; doubles as reals.',
     observe=['Grid::operator()', 'Grid3D::operator()'])
prop('C02', 'Halo exchange sums the shared strips of two neighbours, both sides alike',
     'After two neighbouring grids are overlaid along a radial, longitudinal or corner boundary, every cell that denotes a location covered by both grids holds, '
     'in both of them, the sum of their two previous values, and every other cell of both grids is unchanged. For three-component grids this holds for each '
     'component against the same component of the neighbour, and grids whose shared side differs in length are refused.',
     ['inputs', 'configurations'], 'for every pair of grid sizes, halo width and contents',
     T + '; no test ever overlays two grids of non-square size or checks both sides cell by cell.',
     ['include/algo/grid.hpp', 'include/algo/grid3d.hpp'],
     [('overlay_x / overlay_y / overlay_xy', 'include/algo/grid.hpp'), ('component-wise overlay', 'include/algo/grid3d.hpp')],
     'All obligations proved for symbolic sizes and halo widths; sequential semantics.')
prop('C06', 'Particle pushers apply the Lorentz force; the magnetic field does no work',
     'One push replaces each particle\'s velocity by the result of the selected scheme (Boris, relativistic or adaptive Boris, Vay, Higuera-Cary) for the local electric and '
     'magnetic field, charge, mass and time step, and changes nothing else. The magnetic rotation never changes the momentum magnitude, zero fields leave the velocity unchanged, '
     'and the conversion between velocity and momentum is the relativistic one wherever the scheme is relativistic.',
     ['inputs', 'configurations'], 'for every particle, field value, charge, mass, time step, number of particles and species, and every compiled pusher variant',
     T + '; no test runs a pusher at all.',
     ['src/pusher/pusherBoris.cpp', 'src/pusher/pusherVay.cpp', 'src/pusher/pusherHC.cpp', 'src/phys/rel.cpp', 'include/math/vector3d.hpp'],
     [('half kick, rotation, half kick', 'src/pusher/*.cpp'), ('Lorentz factor and its inverse', 'src/phys/rel.cpp')],
     'Every pusher body is proved equal to its scheme per component for all particles of all species; scheme lemmas (no work, inverse conversions) are proved over the spec. '
     'Field interpolation enters by its contract (C14).')
prop('C10', 'Density deposition conserves weight and fills only the neighbouring nodes',
     'Depositing a particle of a given weight at position (r, z) adds to the four grid nodes around it, and to no other cell, shares that are its ring\'s volume overlap with the node rings, '
     'each divided by that node ring\'s volume; the shares times the volumes sum to the particle\'s weight. A species\' density map is the sum of these deposits over exactly its particles, starting from an empty map.',
     ['inputs', 'configurations'], 'for every position in a domain, weight, cell size, domain offset and number of particles, including the cell at the axis',
     T + '; deposition is never executed.',
     ['include/algo/weighter.hpp', 'src/specieP.cpp', 'include/phys/plasma.hpp'],
     [('volume-overlap weighting', 'include/algo/weighter.hpp: weight_cylindrical'), ('map reset and loop over particles', 'src/specieP.cpp: calc_density')],
     'Proved for symbolic positions in three radial cases (axis, first cell, bulk) and symbolic offsets; r > 0, position inside the domain.')
prop('C12', 'Magnetic field step is the discrete Faraday law; magnetic divergence is kept',
     'Each field step advances every magnetic component by the circulation of the electric field around its face divided by the face area: a half step for the field gathered by particles and a whole step for the '
     'field used in the electric update, each cell exactly once, walls included. The net magnetic flux out of every ring cell is therefore unchanged by a step, and no other state is written.',
     ['inputs', 'configurations', 'histories'], 'for every field content, grid size, cell size, time step, domain offset and combination of outer walls',
     T + '; no field step is ever executed.',
     ['src/maxwellSolver/maxwellSolverYee.cpp', 'include/maxwellSolver/maxwellSolverYee.hpp'],
     [('calc_field_h', 'src/maxwellSolver/maxwellSolverYee.cpp')],
     'Proved per component for all 16 wall combinations with symbolic sizes, offsets and fields; flux lemma proved over the proved update.')
prop('C13', 'Electric field step is the discrete Ampere-Maxwell law; charge law is kept',
     'Each field step advances every electric component by the circulation of the magnetic field minus the deposited current, with the local absorbing-layer conductivity, using the axis form at the axis and leaving the tangential field zero at '
     'conducting outer walls. Inside the domain the net electric flux out of any node cell is changed by the enclosed current divergence only.',
     ['inputs', 'configurations', 'histories'], 'for every field, current and conductivity content, grid size, cell size, time step, domain offset and combination of outer walls',
     T + '; no field step is ever executed.',
     ['src/maxwellSolver/maxwellSolverYee.cpp', 'include/maxwellSolver/maxwellSolverYee.hpp'],
     [('calc_field_e', 'src/maxwellSolver/maxwellSolverYee.cpp'), ('wall cell bounds', 'MaxwellSolverYee constructor')],
     'Proved per component for all 16 wall combinations with symbolic sizes, offsets, fields and conductivities.')
prop('C14', 'Field gathering reads the right component at the four surrounding lattice points',
     'The field a particle feels is, per component, the weighted mean of that same component at the four lattice points of its own staggered sub-lattice surrounding the particle, with longitudinal weights that sum to one and '
     'non-negative volume-overlap radial weights. Gathering modifies nothing.',
     ['inputs', 'configurations'], 'for every position at least half a cell from the axis, field content, cell size and domain offset',
     T + '; gathering is never executed.',
     ['include/maxwellSolver.hpp', 'include/phys/plasma.hpp'],
     [('get_field_e, get_field_h', 'include/maxwellSolver.hpp'), ('volume macros', 'include/phys/plasma.hpp')],
     'Proved per component and field with symbolic position, offset and fields.')
prop('C18', 'Momentum, energy and temperature maps are the weighted means of the particles',
     'Each diagnostic map of a species is computed from scratch out of exactly its current particles: the momentum maps are the density-weighted mean relativistic momentum of the particles around each node, per component; the energy map is the kinetic energy of a '
     'particle with the local mean momentum magnitude; the temperature map is the kinetic energy that belongs to the squared mean magnitude minus the squared mean momentum vector. Cells without particles are zero, and particles are left unchanged.',
     ['inputs', 'configurations'], 'for every particle set, position, velocity below light speed, weight, cell size and domain offset',
     T + '; no diagnostic map is ever computed.',
     ['src/specieP.cpp', 'src/phys/rel.cpp', 'include/algo/weighter.hpp'],
     [('calc_momentum, calc_energy, calc_temperature', 'src/specieP.cpp'), ('relativistic energy from momentum', 'src/phys/rel.cpp')],
     'Proved cell by cell, deposition entering by its contract (C10).')

prop('C07', 'Relativistic kinematics: Lorentz factor, momentum and energy are consistent',
     'The Lorentz factor and its inverse form are the exact relativistic functions of squared velocity and squared momentum per mass; momentum is gamma m v per component, kinetic energy is (gamma - 1) m c^2 above the '
     'non-relativistic threshold and m v^2 / 2 below it, whether computed from velocity or from momentum. Velocities above light speed and massless momenta are refused, and no conversion yields a speed that reaches light speed.',
     ['inputs', 'configurations'], 'for every mass, velocity and momentum, in every build flavour of the square root',
     T + '; no test evaluates a relativistic helper.',
     ['src/phys/rel.cpp', 'src/algo/common.cpp'],
     [('lorenz_factor, lorenz_factor_inv, energy, energy_m, momentum, momentum_0', 'src/phys/rel.cpp'), ('sq_rt', 'src/algo/common.cpp')],
     'Every helper is proved equal to its closed form with the square root as an exact symbolic root; the AVX flavour of the root is exercised natively only (bounded).')
prop('C08', 'Free flight is straight motion, and the basis rotation keeps velocity and spin',
     'Between field kicks each particle moves along a straight line in space: position advances by velocity times the time step, is then returned to the half-plane at its exact new radius, and its velocity is expressed in the turned local basis so that the '
     'Cartesian velocity, the speed and the angular momentum about the axis are the same as before. The old position is remembered unchanged for current deposition, and cell numbers are those of the cell which contains the particle.',
     ['inputs', 'configurations', 'histories'], 'for every particle, position (off the exact axis), velocity, time step and number of particles',
     T + '; no particle is ever moved.',
     ['src/specieP.cpp', 'include/specieP.hpp'],
     [('mover_cylindrical, back_position_to_rz, back_velocity_to_rz, dump_position_to_old, bind_cell_numbers', 'src/specieP.cpp')],
     'Every function is proved for an arbitrary particle of an arbitrary list; rigid-motion lemmas are proved over the contracts. Precondition: the particle does not land exactly on the axis.')
prop('C09', 'Walls mirror particles: position and normal velocity, nothing else',
     'A particle found behind an outer wall of its domain is brought back by an alternating sequence of mirrors at the wall planes (half a cell inside the boundary), and the velocity component normal to the wall is reversed once per mirror, so speed is kept. '
     'Reflection terminates, leaves every particle inside all walls the domain has, does not touch a particle which is already inside, and never acts on a side without a wall.',
     ['inputs', 'configurations'], 'for every particle position and velocity, domain size and offset, cell size and each of the 16 wall combinations',
     T + '; no reflection is ever executed.',
     ['src/specieP.cpp'],
     [('multiple-reflection loop', 'src/specieP.cpp: reflect')],
     'Proved with a loop invariant (composition of mirrors) and a variant (distance behind the walls) for all 16 wall combinations; domain at least two cells wide.')
prop('C17', 'Three-component vectors obey vector algebra',
     'Sum, difference, product and quotient of two vectors or of a vector and a number are componentwise, in the pure and in the in-place form, and never change an operand other than the receiver. Scalar product, vector product, length and squared length have their '
     'textbook values, comparisons hold exactly when they hold in every component, and a copied or assigned vector has storage of its own.',
     ['inputs'], 'for all component values and scalars',
     T + '; the vector tests that exist sample a few fixed vectors.',
     ['include/math/vector3d.hpp'],
     [('operators, dot, cross, length', 'include/math/vector3d.hpp')],
     'Every member and friend operator is proved for symbolic components.')
prop('C11', 'Villasenor-Buneman current deposition obeys discrete charge continuity',
     'For every particle that moves less than one cell per direction in a step, the deposited radial and longitudinal currents carry, through the faces around each grid node, exactly the change of the charge which the particle assigns to that node (ring-overlap shares, old versus new position); '
     'no node outside the cells passed changes. The azimuthal current is the ring share of charge times azimuthal velocity. Deposits of all particles of all species add up on top of the inner cells, starting from empty halos, and none of them removes another.',
     ['inputs', 'configurations'], 'for every move within or between neighbouring cells, including moves along one axis only, starting on a cell border or passing exactly through a corner; every charge, cell size, domain offset and number of particles and species',
     T + '; current deposition is never executed.',
     ['src/current/currentVB.cpp', 'include/current/currentVB.hpp', 'include/current.hpp'],
     [('path splitting at cell borders', 'src/current/currentVB.cpp: rz_current_distribution'), ('currents of one straight segment', 'simple_current_distribution, strict_motion_distribution'), ('azimuthal current', 'azimuthal_current_distribution')],
     'Segment routines are proved equal to the path integral of the node shares; the splitting is proved to deposit exactly the consecutive pieces of the straight path, each in its own cell, for all nine old-cell regions; continuity is a lemma over these contracts. Pieces shorter than 1e-15 m are dropped by the code and excluded.')
prop('C20', 'ZigZag current deposition obeys continuity of linearly assigned charge',
     'With the ZigZag solver, for every particle that moves less than one cell per direction, the deposited radial and longitudinal currents times the volume of the cell at the middle of the move carry exactly the change of the linearly (area) assigned charge of every node, their sums equal charge times mean velocity, '
     'and the azimuthal current is shared among the four nodes of the new cell with weights that sum to one. Deposits of all particles and species add up, starting from empty halos.',
     ['inputs', 'configurations'], 'for every move within or between neighbouring cells, charge, cell size, time step, domain offset and number of particles and species',
     T + '; the ZigZag solver is not even part of the default build.',
     ['src/current/currentZigZag.cpp', 'include/current/currentZigZag.hpp'],
     [('relay point', 'include/current/currentZigZag.hpp: RELAY_POINT'), ('path weights', 'src/current/currentZigZag.cpp')],
     'Proved node by node for all nine old-cell regions with symbolic positions. This is continuity with one common node volume, as the scheme is written; it is not the ring-volume continuity of C11.')

prop('C21', 'Initial plasma has the configured place, density profile, numbers and speeds',
     'Each macroparticle of the initial plasma of a species lies inside the cells to fill, half a cell behind their begin and a cell less where the outer radial or longitudinal wall is, belongs to the species and starts from angle zero. Random and flat placement make exactly the configured number of particles, evenly over the '
     'radius and dividing the linear longitudinal density profile in the drawn proportions; centered placement gives every cell the same whole number, regular placement equal distances. Every macroparticle stands for a number of real particles proportional to the volume of its ring, and all together for the mean density times the volume. '
     'Velocities have the speed of the temperature (or of the energy drawn for the particle), an independent random part per direction, and components below the speed of light; nothing else is changed.',
     ['inputs', 'configurations'], 'for every number of particles, densities, temperature, domain offset, cell size, wall, placement and velocity scheme and all values of the random numbers',
     T + '; three of the four placements and two of the three velocity schemes are not part of the default build.',
     ['src/specieP.cpp'],
     [('placement', 'src/specieP.cpp: rectangular_*_placement'), ('weights', 'src/specieP.cpp: set_weight'), ('velocities', 'src/specieP.cpp: *_velocity_distribution')],
     'Random numbers and sampled energies enter as arbitrary values of their range (energies not negative). The sum over the particles is a ghost sum: each weight times the sum equals the total times the share. Floating loop counters of the regular placement are taken as exact multiples of the step. '
     'The total speed of thermal particles near the speed of light is not bounded (each component is). The real species is also run with each placement.')

prop('C22', 'Beams inject every bunch in time, in place, with the configured charge and speed',
     'Each time step a domain that the beam reaches injects macroparticles exactly while the time is within the current bunch, as many as the smallest whole number not below the amount per step; the count of bunches goes on, in every domain, when the time of the bunch is over, up to the configured amount. '
     'New particles belong to the beam, move along the axis with its speed, lie evenly over the part of the radius in the domain and over the way of one step, know their cells, and stand for the real particles of all bunches divided among the macroparticles by ring volume. The parts of the radius held by a row of domains add up to the beam radius, and '
     'the macroparticles of a bunch are divided in these proportions without rounding; domains further along z inject none. Beam particles are mirrored only at the axis.',
     ['inputs', 'configurations', 'histories'], 'for every beam, bunch, time, time step, domain, cell size and all values of the random numbers',
     T + '; beams are never created by a test.',
     ['src/beamP.cpp'],
     [('injection', 'src/beamP.cpp: BeamP::inject'), ('parts of a beam', 'src/beamP.cpp: BeamP::BeamP'), ('axis', 'src/beamP.cpp: BeamP::reflect')],
     'One step is proved for an arbitrary state (current bunch, time); a bunch is skipped for one step if the next begins less than a time step after it. The total injected charge is not claimed: the amount per step is rounded up. SpecieP::SpecieP enters by its contract (C04), random numbers as arbitrary values of their range.')

prop('C03', 'Domain exchange sums all copies of a node, for every pair of adjacent domains',
     'After the exchange of currents, electric field or magnetic fields, every node that several domains of the simulation block hold a copy of carries, in the domains it belongs to, the sum of all copies: each pair of radial, longitudinal and diagonal '
     'neighbours (on both diagonals) is exchanged exactly once, each field only with the same field of the neighbour, and nothing else is written. Exchanges that run concurrently never touch the same domain, so the result does not depend on thread scheduling.',
     ['inputs', 'configurations', 'schedules'], 'for every number of domains along both axes, every domain size, field content and interleaving of the parallel loop',
     T + '; no test ever builds a block of several domains.',
     ['src/SMB.cpp', 'include/algo/grid.hpp', 'include/algo/grid3d.hpp'],
     [('exchange loops', 'src/SMB.cpp: current_overlay, field_e_overlay, field_h_overlay'), ('pairwise exchange', 'include/algo/grid.hpp: overlay_*')],
     'Each exchange call enters by its contract (C02). The list of exchanged pairs is proved, as a function of symbolic domain amounts, to be exactly the list of adjacent pairs; the order of exchanges is proved irrelevant or right node by node; '
     'concurrent iterations are proved to own disjoint domains. Single process (no MPI).')
prop('C05', 'A particle that leaves its domain is handed to the domain that holds its cell',
     'After migration every particle whose cell is inside the simulation block is in exactly one list: that of its own species in the domain whose cell range holds its cell; particles already there are not touched, and particles outside the block '
     '(below zero or behind the far walls) are in none. No particle is lost, duplicated or given to another species, for even and uneven divisions of cells between domains and for any interleaving of threads.',
     ['inputs', 'configurations', 'schedules'], 'for every number of domains, division of cells, number of species and particles, particle cell and thread interleaving',
     T + '; no test ever builds a block of several domains.',
     ['src/SMB.cpp'],
     [('migration predicate', 'src/SMB.cpp: lambda in particles_runaway_collector'), ('filter of every list', 'std::remove_if + erase over species_p of every domain')],
     'The predicate and the enclosing loops are proved for symbolic domain amounts, divisions, species and particle numbers against the contract of std::remove_if/erase/push_back (standard library, assumed); the domain index formula is proved by lemmas over cell ranges. '
     'Thread safety: transfers are inside a critical region (data flow over the OpenMP build) and never target a list another thread is filtering, provided particles move to adjacent domains. Unique species ids assumed; single process (no MPI).')
prop('C04', 'Domains tile the block, each with its own slice of geometry, walls and species',
     'For every division of the simulation block, each cell of the block belongs to exactly one domain and neighbours in the domain table are neighbours in space. Every domain has the cell size and the global cell amount of the block, a wall exactly where it touches a walled edge of the block, '
     'absorbing layers exactly where its cells reach them, the stretch of the longitudinal density profile that its cells cover, and one object per configured particle species and active beam with the configured parameters, sharing one clock and linked to the current, field solver and pusher of that same domain.',
     ['inputs', 'configurations'], 'for every number of cells and domains along both axes, offset of the block, walls, layer widths, species and beams',
     T + '; no test ever builds a block of several domains.',
     ['src/SMB.cpp', 'include/geometry.hpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp'],
     [('division into domains', 'src/SMB.cpp: SMB::SMB'), ('derived geometry', 'include/geometry.hpp: Geometry'), ('linking of parts', 'src/domain.cpp: Domain::Domain')],
     'The block constructor, Geometry, Domain, SpecieP and BeamP constructors are proved for symbolic sizes and numbers of domains, species and beams; tiling by lemmas over the integer division. Standard containers enter by assumed contracts. Single process (no MPI).')
prop('C15', 'Time step schedule: every stage once per domain and species, in order',
     'In every time step of a run, beams are injected and fields are advanced, then particles move, then currents are deposited, then output is written, each exactly once, after one initial distribution. Each stage acts exactly once on every domain and, in it, on every '
     'particle species. The electric field is advanced in all domains and exchanged before the magnetic field of any domain, which is exchanged after; currents are zeroed (halo included) before deposition, deposited everywhere, then exchanged; particles are pushed, '
     'their positions saved, moved, returned to the half-plane, their velocities turned to the local basis, reflected and given cell numbers before any of them migrates.',
     ['histories', 'configurations', 'schedules'], 'for every number of domains, species and time steps, with and without beams, and every run of the main loop',
     T + '; neither the step functions nor the main loop are ever executed.',
     ['src/SMB.cpp', 'src/domain.cpp', 'src/PiCoPiC.cpp'],
     [('step functions', 'src/SMB.cpp: inject_beam, solve_maxvell, advance_particles, solve_current, distribute'), ('stages of a domain', 'src/domain.cpp'), ('main loop', 'src/PiCoPiC.cpp: main')],
     'Every stage enters by its name (its effect is the contract of another property); exactly-once and order relations are proved over symbolic domain and species amounts, orders that commute are not prescribed. The main loop is decided by typestate data flow over its '
     'control-flow graph; the advance of the clock is only checked natively (bounded). Without MPI.')
prop('C19', 'Initial fields are empty and absorbing layers do not depend on decomposition',
     'When a block has been built, the electric field, both magnetic fields and the currents of every domain are zero and the permittivity is that of vacuum, halo included; the electric field is advanced in all cells but the wall cells. The conductivity of each cell is the sum, over exactly the absorbing layers '
     'of the whole space that the cell lies in, of sigma0 + (sigma1 - sigma0)(depth/length)^2, so that it grows towards the wall, near and far layers mirror each other and the division of the space into domains does not matter; it is zero in all other cells and in the halo.',
     ['inputs', 'configurations'], 'for every number of cells, offset and size of a domain, cell size, layer widths, conductivities and walls',
     T + '; no test ever builds a field solver.',
     ['include/maxwellSolver.hpp', 'src/maxwellSolver/maxwellSolverYee.cpp', 'include/current.hpp'],
     [('initial fields', 'include/maxwellSolver.hpp: MaxwellSolver; src/maxwellSolver/maxwellSolverYee.cpp: MaxwellSolverYee; include/current.hpp: Current'), ('conductivity of the layers', 'src/maxwellSolver/maxwellSolverYee.cpp: set_pml')],
     'Constructors and set_pml are proved for symbolic sizes with Grid constructors and fills by contract (C02). Assumes that the size of the whole space is its cell number times the cell size (C04) and that layers are not wider than the space. The native replay builds whole blocks.')
prop('C16', 'Output probes: every due value is written once, from its node to its place',
     'At every step that is a multiple of the schedule of a probe, and at no other, its dataset grows by the slice of that number, which holds, for every node of the window of the probe (rectangle, column, row or dot), the value of the requested component (electric or magnetic field, current, density, temperature, energy or '
     'momentum of the requested specie) at that node, at the place of the node relative to the window, whichever domain the node is in; parts of a window in several domains complete each other without overlapping. Maps of the specie are recalculated, and densities exchanged between all neighbouring domains, before they are written.',
     ['inputs', 'configurations', 'histories'], 'for every window, schedule, component, step number, number and size of domains, number of probes and species',
     T + '; no test ever writes any output.',
     ['src/outController.cpp', 'src/outWriter.cpp', 'src/outEngine/outEngineHDF5.cpp'],
     [('choice of domains, windows, grids and places', 'src/outController.cpp: OutController'), ('preparation of maps', 'src/outController.cpp: init_datasets'), ('gathering of values', 'src/outWriter.cpp: operator()'), ('selection in the dataset', 'src/outEngine/outEngineHDF5.cpp: write_*, extend_dataset, create_dataset')],
     'Every function is proved for symbolic windows, domains, probes, species and steps; all probes of one obligation share shape and component (nothing is carried from one probe to the next). HighFive/HDF5, standard containers and strings enter by assumed contracts; windows are as the configuration makes them and below 32768 cells; '
     'every domain has all species, with unique names (C04). The native replay dumps random blocks through an in-memory HighFive. Storage inside the HDF5 library is not covered.')

prop('C23', 'Coulomb collisions keep momentum and energy',
     'With the Takizuka-Abe collisions enabled, one step pairs the particles of every cell that holds plasma: each particle of a kind meets one of its own kind (one or two when their number is odd) and each of the larger kind meets exactly one of the smaller kind, which are shared evenly; other cells are left alone and do not stop the rest. '
     'A collision only turns the relative velocity: momentum and energy of a pair of equal weights are kept exactly, that of unequal weights on average over the azimuth; the angle is drawn with the variance of the scheme. After the step every cell has, for each species, the momentum and the energy it had before.',
     ['inputs', 'schedules', 'configurations'], 'for every number of particles in a cell, all weights, masses, charges, velocities and drawn angles, every cell of every domain',
     T + '; collisions are never compiled by them.',
     ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/phys/plasma.cpp'],
     [('one collision', 'src/collisions/collisionsTA77S.cpp: collide_single'), ('pairing', 'src/collisions/collisionsTA77S.cpp: collide'), ('correction of momentum and energy', 'src/collisions/collisionsTA77S.cpp: correct_velocities'),
      ('lists and totals of the cells', 'src/collisions.cpp: clear, sort_to_cells, collect_weighted_params_tot_grid, get_*')],
     'The schemes for fast particles are C26. Precondition: the species are electrons and ions (the code counts every other species among the electrons) with positive mass, and thermal energy left in the cell; otherwise the correction is skipped or arbitrary. '
     'The shuffle before pairing is assumed to permute the list. The constructor and non-finite values are checked natively only (bounded).')

prop('C26', 'Collisions of fast particles keep relativistic momentum and energy',
     'With the SK98 or P12 collisions enabled, one step pairs the particles of every cell that holds plasma: each particle of a kind meets one of its own kind (one or two when their number is odd) and each of the larger kind meets exactly one of the smaller kind, which are shared evenly; other cells are left alone. '
     'In the frame of the center of mass of two colliding particles their momenta are turned by the scattering angle and stay opposite and of the same length, whatever the speeds below that of light, also when the total momentum is zero or the motion is along z; '
     'so whenever both of them are scattered, the total relativistic momentum and energy of the two are kept exactly, and velocities stay numbers below the speed of light. A particle is given a whole new velocity or is left as it was; particles of one velocity do not scatter; weights and places never change.',
     ['inputs', 'schedules', 'configurations'], 'for every number of particles in a cell, all weights, masses, charges, velocities below the speed of light and drawn numbers, both schemes',
     T + '; collisions are never compiled by them.',
     ['src/collisions.cpp', 'src/collisions/collisionsSK98.cpp', 'src/collisions/collisionsP12.cpp', 'src/phys/rel.cpp'],
     [('one collision', 'src/collisions/collisionsSK98.cpp, src/collisions/collisionsP12.cpp: collide_single'), ('pairing', 'src/collisions/collisionsSK98.cpp, src/collisions/collisionsP12.cpp: collide'), ('order of the step', 'src/collisions/collisionsSK98.cpp, src/collisions/collisionsP12.cpp: operator()'),
      ('Lorentz factors and momenta', 'src/phys/rel.cpp: lorenz_factor, lorenz_factor_inv, momentum, momentum_0')],
     'What the scattering angle is, and with what probability P12 leaves one particle of a pair alone, is not claimed: the proof holds for every angle. collide_single is proved against contracts of the Lorentz factors; pairs of particles enter as all pairs of opposite momenta in a moving frame, a change of variables discharged as lemmas. '
     'Lists and totals of the cells are C23. Exact arithmetic: rounding, and the sole scattering of light particles in P12, are only sampled natively (bounded).')

prop('C24', 'The simulated set-up is the one in the configuration file',
     'A run starts from exactly what the configuration file says: size, cells, walls, absorbing layers and domains of the space, limits and step of the clock (which starts from zero), every species, beam and output probe once, in the order of the file, each with its own parameters, '
     'and the place and compression of the output. The requested macroparticles are shared among species and beams in proportion to the cells they fill, rounded down, so that together they never exceed the request. Two species or beams of one name, probes of unknown shape, reversed windows and windows beyond the space '
     'are refused; every probe has a path made of its component, species (where the component belongs to one), shape and window.',
     ['inputs', 'configurations'], 'for every size, number, text and list length of the configuration, and the compiled variants with and without absorbing layers and threads',
     T + '; no test ever reads a configuration.',
     ['src/cfg.cpp', 'include/cfg.hpp'],
     [('space and clock', 'src/cfg.cpp: init_geometry, init_time'), ('species and beams', 'src/cfg.cpp: init_particles, init_beam'), ('share of macroparticles', 'src/cfg.cpp: weight_macro_amount'), ('probes and output', 'src/cfg.cpp: init_probes, init_output_data')],
     'The JSON library and std::string enter by assumed contracts (a value is the number or text at its path in the file; texts are tokens). Exceptions are flattened, so a probe without species, and the refusal of equal names, of odd numbers of domains and the bound on the total are only checked natively (bounded), as is the order of the steps in the constructor. '
     'A window that ends one cell behind the space is still accepted by the program and not claimed here.')
prop('C25', 'Homogeneous external fields reach every particle alike, each field on its own',
     'With external fields compiled in, a configured longitudinal homogeneous electric or magnetic field has exactly the configured amplitude along the axis and no other component, in every cell off the outer walls and in every copy a domain keeps of a cell '
     'of its neighbours, so that what a particle feels does not depend on the division into domains. The electric and the magnetic field are set independently, each by its own profile name and parameters of the configuration; without such a profile a field is '
     'zero. Every domain uses the configured fields, and its pusher adds them to its own fields. Nothing but the external fields is changed by setting them.',
     ['inputs', 'configurations'], 'for every amplitude, number of parameters, pair of profiles, domain size, position and combination of walls, in every domain, with and without absorbing layers',
     T + '; no test builds the program with external fields.',
     ['src/maxwellSolver/externalFields.cpp', 'src/domain.cpp', 'src/SMB.cpp', 'src/cfg.cpp'],
     [('fields of a domain', 'src/maxwellSolver/externalFields.cpp: constructor, set_el_field_homogenous_z, set_magn_field_homogenous_z, operator()'), ('configuration', 'src/cfg.cpp: init_external_fields'),
      ('every domain', 'src/SMB.cpp: SMB::SMB; src/domain.cpp: Domain::Domain')],
     'All obligations proved for symbolic sizes and amplitudes and each combination of walls; the agreement of domains is a lemma over the postconditions and the place of walls (C04), for domains of at least three cells. Other profiles than none and const_z are accepted by the '
     'program and give no field. Interpolation to particles is C14, its addition to the other fields C06, the place in the step C15.',
     observe=['ExternalFields::operator()'])
