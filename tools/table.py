"""one table from which properties.jsonl and MANIFEST.json are written"""
P = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', tech=None, na=None, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                  note=note, tech=tech, na=na, observe=list(observe), state=list(state)))


STD = ('Contracts over the LLVM IR of the current sources, discharged for all inputs by exact rational normal forms and z3; '
       'floating point is read as real arithmetic; every executed contract is cross-checked natively and refutations are replayed natively.')
TECH = 'contract-based deductive verification (symbolic execution of the compiled code, exact normal forms + z3)'

FC = 'include/tree_topology/filling_curve.h'
prop('P01', 'Morton keys interleave the cell, nest by prefix and are inverted',
     'The Morton key of a point at any depth is a leading one followed by the interleaved leading bits of its cell indices, so keys determine the cell, and the key at a smaller depth is a prefix of that at a larger one. '
     'The coordinates of the deepest key lie within one cell of the point, and those of any key are the low corner of its box. '
     'The box of any key is the dyadic sub-box its digits select, and the box of a point\'s key at any depth contains the point.',
     ['inputs', 'configurations'], 'all points in all non-empty ranges, all depths, all digit strings, D = 1, 2, 3 (64-bit keys)',
     'The tests print keys of a few corners and random points; nesting, injectivity and containment for all 2^63 cells are not sampled.',
     [FC], [('key of a point', FC + ': morton_curve_u(range, p, depth)'), ('inversion', FC + ': morton_curve_u::coordinates'), ('boxes', FC + ': morton_curve_u::range')],
     note='Bit-vector proofs over the compiled code; the cell index is the integer part of (p-min)/(max-min)*2^M with coordinates read as reals.',
     observe=['value of a key', 'coordinates and range of a key'])
prop('P02', 'Hilbert keys are one per cell, inverted, nested, and step to a neighbour',
     'Decoding the deepest Hilbert key of a point gives the low corner of the point\'s cell, for every cell, so different cells have different keys. '
     'Keys of smaller depth are prefixes of the deepest key. '
     'Consecutive deepest keys belong to cells that share a face.',
     ['inputs', 'configurations'], 'all points in all non-empty ranges, all depths, all keys, D = 1, 2, 3 (64-bit keys)',
     'The tests print keys of a few points (the 3D distance assertions are commented out); round trip and unit steps for all 2^63 cells are not sampled.',
     [FC], [('key of a point', FC + ': hilbert_curve_u(range, p, depth)'), ('inversion', FC + ': hilbert_curve_u::coordinates'), ('rotations', FC + ': rotation2d, rotation3d, unrotation3d')],
     note='SAT-sweeping equivalence and bit-vector induction over the compiled code; the cell index is the integer part of (p-min)/(max-min)*2^M with coordinates read as reals.',
     observe=['value of a key', 'coordinates of a key'])
prop('P03', 'Keys are digit strings: push, pop, truncate, parent and order',
     'A key of any dimension is a leading one followed by its digits: depth counts them, push appends one, pop, pop_value, parent, pop(n) and truncate remove trailing ones and pop_value and last_value return the last. '
     'Popping a pushed digit restores key and digit. '
     'The root has no digits, min and max are the smallest and largest deepest keys, comparison is that of the values, and the conflict depth of two deepest keys is the depth of their deepest common ancestor.',
     ['inputs', 'configurations'], 'all keys of all depths, all digits and counts, D = 1, 2, 3 (64-bit keys)',
     'The tests pop one key to the root; the algebra must hold for every key because every tree descent relies on it.',
     [FC], [('key algebra', FC + ': filling_curve')], note='Bit-vector proofs over the compiled code.', observe=['value of a key after the operation'])
TT = 'include/tree_topology/tree_topology.h'
TG = 'include/tree_topology/tree_geometry.h'
IG = 'include/physics/integration.h'
EO = 'include/physics/eos/eos.h'
EF = 'include/physics/eforce.h'
DN = 'include/physics/density_profiles.h'
FM = 'include/physics/fmm.h'
DP = 'include/physics/default_physics.h'
TN = 'include/tensor.h'
prop('P04', 'Tensor components named by letters or numbers share the right storage',
     'Naming a component by letters (T[xzy]) or by numbers (T(0,2,1)) reaches the same stored component, for every rank 1 to 4 (symmetric: 2 to 4) and dimension 1 to 4, on const and non-const tensors. '
     'Different index tuples of a generic tensor are stored apart, also when its dimensions differ; two tuples of a symmetric tensor share storage exactly when one is a permutation of the other. '
     'size() is the number of stored components, and flat access T[i] is the i-th of them.',
     ['inputs', 'configurations'], 'every index tuple of every rank, dimension and symmetry supported by the letter names (exhaustive: finite sets)',
     'The test prints a few components; each of the 340 table entries per symmetry and dimension can be wrong alone.',
     [TN], [('letters', TN + ': tensor_indices, operator[](rankN_index)'), ('numbers', TN + ': multiindex, symindx2..4, operator()'), ('count', TN + ': size, pascal_number')],
     note='Decided for every index tuple by symbolic execution of the compiled accessors at that tuple.', observe=['address of the component reached'])
prop('P05', 'Vector and tensor algebra is componentwise and geometrically exact',
     'Sums, differences, scaling, division, assignment, copying, filling and construction from values act on each stored component separately and leave the operands unchanged, also when an operand is the tensor itself (t += t); tensors compare equal exactly when all components do. '
     'distance, dot, magnitude, midpoint, cross, cross_magnitude and normal are the Euclidean ones (cross is zero in 1D and 2D; in 2D normal(a,b) is b-a turned by +90 degrees, in 3D it is cross(a,b)). '
     'The centroid of any number of points is their mean.',
     ['inputs'], 'all component values, tensors of eight shapes (vectors 1-4, generic 2x3 and 3x3, symmetric 3x3 and 3x3x3), any number of points',
     'The test adds and scales a few tensors; a wrong component or an aliasing slip shows only for other shapes and values.',
     [TN, 'include/space_vector.h'], [('tensor algebra', TN + ': tensor_u constructors and operators'), ('geometry', 'include/space_vector.h: distance ... centroid')],
     note=STD, observe=['components of the result'])
prop('P06', 'The tree\'s geometric predicates mean what their names say',
     'For any points, radii and boxes: within, within_square and within_distance2 hold exactly when the distance is at most the (larger) radius; two spheres meet exactly when the distance is at most the sum of the radii; two boxes meet exactly when they overlap along every axis; a sphere meets a box exactly when the nearest point of the box is within the radius. '
     'within_box is true strictly inside and on the high faces and false outside. '
     'mac holds exactly when the radii together are less than angle times distance, box_MAC exactly when the box diagonal is less than angle times distance (radii non-negative, box min <= max, positive distance; a slack of 1e-14 is allowed).',
     ['inputs'], 'all points, radii, boxes and angles, D = 1, 2, 3',
     'These predicates decide which cells are pruned; a wrong one shows only for particular placements (beyond a corner, touching faces) that no test visits.',
     ['include/tree_topology/tree_geometry.h'], [('predicates', 'include/tree_topology/tree_geometry.h: tree_geometry<T,1..3>')],
     note=STD, observe=['the boolean returned'])
prop('P07', 'Tree cells answer what they were told; the built tree holds each particle once',
     'For every history of its operations (child number below 2^D, children to receive 0 to 2^D, index set only while the other index is unset) a cell reports exactly the children added, shared, requested, children to receive, owner, node or entity index and key it was told; nchildren and has_child follow the children, is_unset, is_node, is_entity the indices, is_empty_node is a node without children or with fewer than it waits for; a new cell has none and belongs to this process (iam_owner). '
     'After build_tree on any number of processes every cell but the root is listed as child by a node that is present; a cell refers to one particle exactly when its only one, names the process that holds it and is shared exactly when that is another; each local particle is in exactly one cell, and no cell is empty. '
     'A node summary has the exact mass, centre, count and faces of all particles of all processes whose key begins with its key and covers them by radius and reach; it lists exactly the children with particles (or, known by summary only, names the process holding all its particles).',
     ['inputs', 'configurations', 'histories'], 'all histories of cell operations, all sets of particles with distinct deepest keys, any number of processes with at least one particle each, D = 1, 2, 3',
     'No test builds a tree or touches a cell; one wrong bit of the packed state loses a subtree only for particular children, owners or process counts.',
     [TT, TG], [('cell', 'include/tree_topology/tree_types.h: hcell'), ('tree', TT + ': build_tree, load_shared_node, share_nodes_, cofm')],
     level='other', note='Proved: every operation of the cell against its abstract view. Bounded: every cell of whole trees built on generated sets with 1 to 7 MPI processes.',
     tech='contract-based deductive verification of the cell operations; bounded whole-tree runs stand in for the build across processes', observe=['answers of a cell', 'cells of the tree after build_tree'])
prop('P08', 'The summary of a tree cell covers everything below it',
     'For any number of particles and child cells with non-zero total mass, compute_cofm gives a cell the total mass, the mass-weighted mean position, the number of particles below it, and bounding faces that are the minimum of x-h/2 and maximum of x+h/2 over its particles and of the faces of its child cells. '
     'Its radius is the largest of the distances from its centre to its particles and of distance plus radius over its child cells; its lap is the largest of distance plus h over its particles and of distance plus radius plus lap over its child cells. '
     'Nothing else is changed (particles, child cells, field expansion).',
     ['inputs'], 'any number of particles and child cells, any positions, smoothing lengths, masses, D = 1, 2, 3',
     'A summary too small by a little prunes real neighbours only for special configurations; tests check a mass total at most.',
     [DP], [('cell summary', DP + ': compute_cofm')],
     note=STD, observe=['fields of the node'])
prop('P09', 'The neighbour walk hands every particle exactly its neighbours',
     'For any number of processes, traversal_sph calls its function exactly once for every local particle, passing the further arguments on, with a list without duplicates of every particle of any process (itself included) whose distance is at most the mean of the two smoothing lengths, and of none farther than the larger of the two. '
     'The particles listed carry the data their own process had when the tree was last built or reset_ghosts called, also in later walks. '
     'On one process find_in_radius(c, r) returns exactly the particles whose distance from c is at most the larger of r and their own smoothing length.',
     ['inputs', 'configurations', 'histories'], 'all sets of particles with distinct deepest keys, any smoothing lengths, any number of processes with at least one particle each, D = 1, 2, 3',
     'No test builds a tree; a pair lost in one branch of the walk or one exchange pattern only shows for particular layouts and process counts.',
     [TT, TG], [('walk', TT + ': traversal_sph, find_in_radius'), ('pair tests', TG + ': tree_geometry'), ('tree and exchange', TT + ': build_tree, share_edge_, cofm, share_nodes_, fetch and request of remote children, reset_ghosts')],
     level='other', note='Proved: no pair test of the walk turns a true neighbour away (tests on the compiled geometry with the cell summaries of P08, over the reals). Bounded: whole-tree runs on generated sets with 1 to 7 MPI processes against a loop over all pairs.',
     tech='contract-based deductive verification of the pair tests; bounded whole-tree runs stand in for the recursion and the message exchange', observe=['neighbour lists handed to the function', 'result of find_in_radius'])
prop('P10', 'Kernel weights are normalised, compact, positive and monotone',
     'For every kernel and every dimension (1, 2, 3), the weight W(r,h) depends on r only through r/h apart from an overall factor h^-D, is zero for r beyond the support h, '
     'and integrates to one over space. Inside the support it is non-negative, does not increase with r, and has no jumps '
     '(the sinc family for indices 3 to 12: integral to 1e-4, monotone on its main part).',
     ['inputs', 'configurations'], 'all distances r >= 0, all smoothing lengths h > 0, all kernels, D = 1, 2, 3, sinc index 3..12',
     'No test touches the kernels; a finite table of weights settles neither the integral nor positivity for all r and h.',
     ['include/physics/kernels.h'],
     [('kernel functions', 'include/physics/kernels.h: cubic_spline ... gaussian, super_gaussian, sinc_ker'), ('selection', 'include/physics/kernels.h: select')],
     note=STD + ' sinc sign and decay are a bounded stand-in.', observe=['weight returned by each kernel function'])
prop('P11', 'Kernel gradients are the exact radial derivative of the weights',
     'For every kernel and every dimension, the gradient returned for a separation vector is the derivative of that kernel\'s weight along the separation: it points along the separation, is odd in it, '
     'is zero for zero separation and zero beyond the support.',
     ['inputs', 'configurations'], 'all separation vectors, all smoothing lengths, all kernels, D = 1, 2, 3, sinc index 3..12',
     'No test touches the gradients; a wrong coefficient in one branch of one kernel is invisible without deriving the weight itself.',
     ['include/physics/kernels.h'],
     [('gradient functions', 'include/physics/kernels.h: gradient_*')], note=STD,
     observe=['vector returned by each gradient function'])
prop('P12', 'Density is the kernel-weighted mass sum; smoothing length follows density',
     'The density of a particle is the sum over its neighbours (itself included) of mass times the kernel weight at the pair distance and the mean of the two smoothing lengths, for any number of neighbours. '
     'The adaptive smoothing length of every particle is eta times the kernel width times (mass/density)^(1/D), or in the uniform variant the mean of these over all particles. '
     'Nothing else of the particle or of its neighbours changes.',
     ['inputs'], 'every particle state, every neighbour list of any length, D = 1, 2, 3',
     'There is no test of the physics routines; a sum over an unbounded neighbour list is not settled by samples.',
     ['include/physics/default_physics.h'],
     [('density summation', 'include/physics/default_physics.h: compute_density'), ('smoothing length', 'include/physics/default_physics.h: compute_smoothinglength, compute_average_smoothinglength')],
     note=STD + ' Global reduction is a contract (unknown function of the local sum).', observe=['density and smoothing length of particles after the routine'])
prop('P13', 'Pair forces conserve linear and angular momentum',
     'For any two particles, the momentum the first gives to the second through pressure and artificial viscosity, and through the optional short-range repulsion, is exactly opposite to what the second gives to the first, '
     'and it acts along the line joining them; a particle exerts no such force on itself. '
     'With any number of neighbours the acceleration is the sum over the single neighbours plus the external force, and computing it changes the accelerations of that particle only.',
     ['inputs', 'configurations'], 'every pair of particle states, every neighbour list of any length, every kernel (odd gradient along the separation), D = 1, 2, 3',
     'There is no test of the physics routines; conservation of each pair exchange for all states is not settled by a few runs.',
     [DP], [('pressure and viscous acceleration', DP + ': compute_acceleration'), ('short-range repulsion', DP + ': add_short_range_repulsion')],
     note=STD + ' The kernel gradient enters by its contract (P11), the external force as a function of position.', observe=['acceleration of a particle after the routine'])
prop('P14', 'Energy is only exchanged, never created, by pair interactions',
     'In any pair interaction by pressure and artificial viscosity the internal energy gained by the two particles equals the kinetic energy they lose, and the total-energy rates of the two cancel apart from gravity; '
     'for any neighbours the total-energy rate equals the internal-energy rate plus the work of pressure, viscosity and gravity. '
     'Total energy is internal plus kinetic plus external potential and setting it and recovering the internal energy from it are inverse; drag changes the energy rates by its power; during relaxation steps the internal energy is frozen.',
     ['inputs', 'configurations'], 'every pair of particle states, every neighbour list of any length, every kernel, D = 1, 2, 3',
     'There is no test of the physics routines; exact balance for all states and neighbour counts cannot be sampled.',
     [DP], [('internal-energy rate', DP + ': compute_dudt, add_drag_dudt'), ('total-energy rate', DP + ': compute_dedt, add_drag_dedt'),
            ('total energy', DP + ': set_total_energy, recover_internal_energy')],
     note=STD + ' The kernel gradient enters by its contract (P11), the external force as a function of position.',
     observe=['energies and energy rates of a particle after the routine'])
prop('P15', 'Artificial viscosity acts on approaching pairs only and never cools',
     'The viscosity of a pair is symmetric in the two particles, zero for pairs that do not approach each other, never negative, and follows the formulas of the selected variant (constant or variable coefficient); it never lowers the internal energy of an approaching pair. '
     'The coefficient alpha starts at its configured constant (at zero when variable), and when updated it stays between zero and its maximum, with the limiter between zero and one.',
     ['inputs', 'configurations'], 'every pair of particle states, every coefficient choice, D = 1, 2, 3, every neighbour list',
     'There is no test of the viscosity; a sign or a symmetry for all pair states is not settled by samples.',
     ['include/physics/viscosity.h', DP], [('pair viscosity', 'include/physics/viscosity.h: mu, artificial_viscosity'), ('alpha', 'include/physics/viscosity.h: initialize_alpha, compute_xi, compute_alpha')],
     note=STD, observe=['value of the pair viscosity', 'alpha of a particle'])
prop('P16', 'Time step is stable, clock is consistent, outputs are not skipped',
     'A particle\'s step is the CFL factor times the smallest of its velocity, acceleration and signal-speed criteria (the signal speed being the largest over neighbours located elsewhere of the larger sound speed plus the approach speed); with total-energy evolution it is shortened until the external potential and gravitational energy taken up stays below half the internal energy, or the run stops with an error. '
     'The adaptive global step is positive, never longer than the smallest particle step or twice the previous step, and never passes the time of a pending scheduled output; an output that is due moves on by its interval. '
     'Advancing moves the clock by the step, and the iteration count by one, and the run ends exactly when a positive time or iteration limit is exceeded.',
     ['inputs', 'histories', 'configurations'], 'every particle state and neighbour list, any number of particles, every combination of output schedules, D = 1, 2, 3',
     'There is no test of the time stepping; the step bound must hold for every state and every combination of schedules.',
     [DP], [('signal speed', DP + ': compute_signalspeed'), ('particle step', DP + ': compute_dt'), ('global step', DP + ': set_adaptive_timestep'),
            ('clock', DP + ': advance_time, termination_criteria')],
     note=STD + ' The all-processes minimum is a contract (a positive number not above the local value); the 0/0 of a coincident neighbour is modelled as not-a-number.',
     observe=['time step and signal speed of a particle', 'global step, clock, iteration, output times'])
prop('P17', 'Gravity kernels follow Newton\'s law and its first-order expansion',
     'A source of mass M adds -G M/d to the potential and -G M r/d^3 to the acceleration of a particle or to the field expansion of a cell (r from source to sink, d = |r| > 0), so the pulls of two particles on each other cancel. '
     'Every particle of a list receives exactly the sum over all listed sources of another id, plus that of the source cell if there is one. '
     'A cell passes to each of its particles, to first order about its centre, potential pc - r.fc and acceleration fc on top of what is there; nothing else changes.',
     ['inputs'], 'every state of particles and cells, any number of sinks and sources, D = 1, 2, 3',
     'There is no test of gravity; sums over unbounded lists, self-exclusion and signs for all states are not sampled.',
     [FM], [('pair law', FM + ': gravitation_p2p, gravitation_fc'), ('sums', FM + ': fmm_p2p, fmm_c2p, taylor_c2c, taylor_p2c'), ('expansion', FM + ': interaction_c2p')],
     note=STD, observe=['gravitational potential and acceleration of particles', 'field expansion of cells'])
prop('P18', 'Leapfrog kicks and drifts are exact, second order and time reversible',
     'A velocity kick adds dt/2 times the sum of hydrodynamic and gravitational acceleration, an energy kick (internal or total) adds dt/2 times its rate, a drift adds dt times the velocity to the position, the adiabat step adds dt times its rate and saving the half-step velocity copies the velocity; each changes nothing else. '
     'Kick, drift, kick therefore moves a particle by v dt + a dt^2/2 and changes velocity and energies by the trapezoidal rule. '
     'The same steps taken back with -dt and the accelerations in reverse order restore position, velocity and energies.',
     ['inputs', 'histories'], 'every particle state, every step length, D = 1, 2, 3',
     'There is no test of the integrator; order and reversibility need all states.',
     [IG], [('steps', IG + ': leapfrog_kick_v, leapfrog_kick_u, leapfrog_kick_e, leapfrog_drift, dadt_integration, save_velocityhalf')],
     note=STD, observe=['position, velocity, energies of a particle after the step'])
prop('P19', 'Equations of state are thermodynamically consistent',
     'With invariant K: polytropic P = K rho^G, c^2 = dP/drho = G P/rho, u = K rho^(G-1)/(G-1), so du/drho = P/rho^2; ideal P = (G-1) rho u, c^2 = G (G-1) u; the piecewise polytrope follows its own exponent and invariant on each side of the threshold density, with pressure and internal energy continuous there and du/drho = P/rho^2 on both; K computed from density and pressure gives that pressure back. '
     'The white dwarf law is that of cold degenerate electrons: with x = (rho Ye/B)^(1/3), P = A (x(2x^2-3)sqrt(1+x^2) + 3 asinh x), du/drho = P/rho^2, c^2 = c_light^2 x^2/(3(1+x^2)). '
     'Selecting a type installs its routines, each changes only its own quantity, and the half-step predictors leave the stored energy at its current value.',
     ['inputs', 'configurations'], 'every positive density, pressure, invariant and energy, all exponents above one, all thresholds',
     'There is no test of the equations of state; consistency between independently coded formulas holds or fails for all states.',
     [EO], [('formulas', EO + ': eos_t<...>::compute_*'), ('selection', EO + ': select'), ('predictors', DP + ': recompute_pressure_soundspeed, recompute_pressure_soundspeed_thermokinetic')],
     note=STD + ' pow(x,a+b) = pow(x,a) pow(x,b) for x > 0.', observe=['pressure, sound speed, energy, invariant of a particle'])
prop('P20', 'External accelerations are minus the gradient of their potentials',
     'For each external force (walls along x, y, z, spherical wall, uniform gravity, orbiting companion with centrifugal term, airfoil, support of a spherical density profile, constant shift) the acceleration is minus the gradient of the potential at every point that is not on a surface where the force switches on, for all parameter values. '
     'The total acceleration and potential are the sums over the forces named in the selection string (upper or lower case, wall directions in any order). '
     'Drag is -(beta + gamma v^2) v.',
     ['inputs', 'configurations'], 'all points and parameter values, D = 1, 2, 3 (orbit and airfoil: D = 2, 3); selection strings: every name and pair of names',
     'There is no test of external forces; energy conservation needs force and potential, coded separately, to agree everywhere.',
     [EF], [('forces', EF + ': acceleration_*, potential_*'), ('selection', EF + ': select, acceleration, potential'), ('drag', EF + ': acceleration_drag')],
     note=STD + ' The potential is differentiated symbolically; the density profile enters as a function and its derivative (P21); the selector is a bounded native check.',
     observe=['acceleration and potential at a point'])
prop('P21', 'Density profiles: mass, density and slope belong together',
     'Inside the unit sphere the constant, parabolic and mesa profiles have mass(0) = 0, mass(1) = 1, mass growing with radius as the area of the sphere times the density (mesa: up to its cut at 0.9999), slope equal to the derivative of the density, and a density that is never negative, vanishes at the surface for parabolic and mesa and is continuous at the mesa rim, for every rim width between 0 and 1. '
     'A tabulated profile with four or more increasing non-negative radii returns the tabulated value at each of its points, reproduces cubic polynomials between them and is zero outside the table; a table is read from its file (values to single precision) with its comment and blank lines skipped.',
     ['inputs', 'configurations'], 'all radii in the unit sphere, all rim widths, D = 1, 2, 3; all tables; files: random ones',
     'There is no test of the profiles; initial data and the supporting force need density, mass and slope, coded separately, to agree everywhere.',
     [DN], [('analytic', DN + ': rho_*, mass_*, drhodr_*, mesa_mass_helper, select'), ('table', DN + ': get_interval_index, cubic_interp, read_input_density_file')],
     note=STD + ' The binary search is proved by a stated loop invariant and called by contract in the interpolation; reading the file is a bounded native check.',
     observe=['density, mass and slope at a radius'])
prop('P22', 'Velocity divergence and viscosity switch follow the relative flow',
     'The velocity divergence of a particle is sum m_b (v_b - v_a).grad W / rho_a over its neighbours with the kernel at the mean smoothing length, so a common velocity has no divergence; its rate is the change over the step, and nothing else of the particle changes. '
     'The limiter is q/(q + tr S^2) with q = (2 (1-R)^4 div)^2 (zero for negligible q), R the mass- and kernel-weighted mean sign of the neighbours\' divergence and S the traceless symmetric velocity gradient. '
     'The viscosity coefficient jumps up to alpha_max A/(delta (v_sig/h)^2 + A), A being limiter times max(-rate of divergence, 0), or decays towards it over the time h/(2 l v_sig).',
     ['inputs'], 'every particle state, every neighbour list of any length, D = 1, 2, 3',
     'There is no test of the physics routines; a sum over an unbounded neighbour list is not settled by samples.',
     [DP, 'include/physics/viscosity.h'], [('divergence', DP + ': compute_divv'), ('switch', 'include/physics/viscosity.h: compute_xi, A_trigger, compute_alpha')],
     note=STD + ' The kernel and its gradient enter by their contracts (P10, P11).', observe=['divergence, rate and alpha of a particle after the routine'])
prop('P23', 'Periodic directions: particles wrap around and have one image per near side',
     'With the box centred on 0 and sides box_length, box_width, box_height, pboundary_generate moves every particle of a periodic direction that lies beyond (-L/2, L/2] (by less than L) by one L back into it and changes nothing else of it or of the order of the particles. '
     'It then appends, for every non-empty set of periodic directions in all of which the particle is near a side (x + halo > L/2 or x - halo <= -L/2, halo at most half the smallest periodic side), exactly one image: the particle shifted by L to the opposite side in those directions, type WALL, all other fields but the id equal; the ids of the images are the numbers from the total number of particles on, each used once over all processes. '
     'pboundary_clean removes exactly the WALL particles and keeps the others unchanged in their order.',
     ['inputs', 'configurations', 'histories'], 'all particles, boxes, halos, sets of periodic directions, D = 1, 2, 3, any number of processes whose particles have the ids 0..n-1',
     'No test runs a periodic box; a missing corner or a doubled id only shows for particles near several sides or on several processes.',
     ['include/physics/boundary.h'], [('wrap', 'boundary.h: pboundary_generate'), ('corners', 'boundary.h: add_corner_XX, add_corner_XXX'), ('removal', 'boundary.h: pboundary_clean')],
     level='other', note='Proved: the corner images (added just when all their directions are marked, place, type, every other field) for all particles, boxes and halos. Bounded: whole periodic steps on generated particles with 1 to 7 MPI processes.',
     tech='contract-based deductive verification of the corner images; bounded runs stand in for the whole step', observe=['particles after pboundary_generate', 'particles after pboundary_clean'])
prop('P24', 'Lattice generators fill the domain with the lattice asked for',
     'Counting and generating a lattice agree: exactly the entries id..id+n-1 are set (unused coordinates to 0), every particle lies in the box from min to max (spherical domain, D = 2, 3: the ball inscribed in it) up to 1e-6 of the x side, none of a regular lattice on the upper sides. '
     'In regular lattices (line; rectangular, triangular in 2D; cubic, hcp, fcc in 3D) no two particles are closer than the separation, one sits in the lower corner of a box, no place of the lattice inside the domain is empty, and an inner particle has 2; 4, 6; 6, 12, 12 neighbours at the separation (six with an opposite one in hcp, all in fcc). '
     'The icosahedral lattice is a central particle and shells k = 1, 2, ... of 10 k^2 + 2 particles at one radius, full until the domain cuts them, and the random one has (L/sep + 1)^3 particles (rounded down) for smallest side L (both 3D only).',
     ['inputs', 'configurations'], 'all boxes with sides above the separation (cubes for the icosahedral; cubes and balls centred on 0 for the random lattice), separations, first ids, both domains, D = 1, 2, 3',
     'No test builds a lattice; initial data of every run rest on them, and a wrong layer or row shows only for particular boxes.',
     ['include/lattice.h'], [('domain', 'include/lattice.h: in_domain_1d, in_domain_2d, in_domain_3d'), ('lattices', 'include/lattice.h: generator_lattice_1d, _2d, _3d, generator_icosahedral_lattice, generator_random_lattice'), ('selection', 'include/lattice.h: select')],
     level='other', note='Proved: the tests for being in the domain, for every point and box. Bounded: whole lattices on generated boxes (also with AddressSanitizer), every pair of particles compared.',
     tech='contract-based deductive verification of the domain tests; bounded runs stand in for whole lattices', observe=['number returned by count and generate', 'coordinates written by generate'])
prop('P25', 'Reported totals and statistics are those of all particles of all processes',
     'Mass, momentum, angular momentum (D = 2, 3), kinetic, internal, gravitational (half the sum of mass times potential) and total energy (internal, kinetic and external, or the stored total energy, plus the gravitational energy when fmm is enabled) are the sums over the NORMAL particles of all processes. '
     'The statistics are smallest, largest and average smoothing length, speed (of moving particles) and neighbour count (average rounded down) over all particles of all processes; every process gets the same totals and statistics. '
     'A run starts at its initial iteration, time and step with all outputs scheduled by time due, and a line of totals or statistics with these values in the order of its header is appended exactly when its output is due.',
     ['inputs', 'configurations'], 'any number of particles per process (at least one) of either type, every particle state, every flag and schedule, D = 1, 2, 3; columns min_dist, avg_dist_h and N_ghosts are not included',
     'No test computes a total; the conserved quantities are what a user judges a run by, and a part left out shows only for particular particle types, flags or process counts.',
     ['include/physics/analysis.h', 'include/diagnostic.h'],
     [('totals', 'include/physics/analysis.h: compute_total_*'), ('statistics', 'include/diagnostic.h: compute_*_stats'), ('lines', 'analysis.h: scalar_output, set_initial_time_iteration; diagnostic.h: output')],
     level='other', note='Proved: totals, statistics and start of a run for any number of particles, given the contract of MPI_Allreduce. Bounded: the lines of the files, on generated data with 1 to 5 MPI processes.',
     tech='contract-based deductive verification of totals and statistics; bounded runs stand in for the report files', observe=['totals after compute_total_*', 'statistics after compute_*_stats', 'lines of scalar_reductions.dat and diagnostic.dat'])
prop('P26', 'Rates of change follow the SPH equations for any neighbour list',
     'The acceleration of a particle is minus the sum over neighbours of mass times (P_a/rho_a^2 + P_b/rho_b^2 + viscosity) times the kernel gradient at the mean smoothing length, plus the external acceleration; '
     'its internal- and total-energy rates are the matching sums (P_a/rho_a^2 + viscosity/2) v_ab.grad W and -(P_a v_b/rho_a^2 + P_b v_a/rho_b^2 + (v_a+v_b) viscosity/2).grad W plus the work of gravity. '
     'The optional repulsion adds gamma m r/|r|^3 for each other particle within its radius, and gravitational acceleration and potential start from zero.',
     ['inputs', 'configurations'], 'every particle state, every neighbour list of any length, every kernel, D = 1, 2, 3',
     'There is no test of the physics routines; a sum over an unbounded neighbour list is not settled by samples.',
     [DP], [('acceleration', DP + ': compute_acceleration, add_short_range_repulsion'), ('internal-energy rate', DP + ': compute_dudt'), ('total-energy rate', DP + ': compute_dedt')],
     note=STD + ' Kernel gradient and external force enter as functions of their arguments.', observe=['acceleration and energy rates of a particle after the routine'])
prop('P28', 'The multipole walk lets every particle act on every other exactly once',
     'For any number of processes and any acceptance parameter, traversal_fmm lets every particle act on every other exactly once: through the expansion of one cell of the sink, through one source cell, or in a list of particles; expansions are handed down exactly once, to all local particles of their cell. '
     'A cell is used as sink or source only when the sum of the two radii is below the parameter times the distance of the centres, so its particles are at least (1 - parameter) times that distance apart; a source summarises all its particles of all processes. '
     'With parameter 0 in 3D the walk with the multipole routines gives the direct sums of potential and acceleration.',
     ['inputs', 'configurations', 'histories'], 'all sets of particles with distinct deepest keys, any number of processes with at least one particle each, any acceptance parameter, D = 1, 2, 3',
     'No test runs the walk; a pair lost, doubled or accepted too near only shows for particular layouts and process counts.',
     [TT, TG, FM], [('walk', TT + ': traversal_fmm'), ('acceptance', TG + ': mac'), ('tree and exchange', TT + ': build_tree, cofm, share_nodes_, request_')],
     level='other', note='Proved: the acceptance test and what it implies for the particles below two cells. Bounded: whole-tree runs on generated sets with 1 to 7 MPI processes against the list of all pairs.',
     tech='contract-based deductive verification of the acceptance test; bounded whole-tree runs stand in for the walk and the message exchange', observe=['sinks and sources handed to the four functions'])

prop('P29', 'Snapshots written by any number of processes are read back exactly by any other',
     'outputDataHDF5 leaves the particles alone and stores, for any distribution over processes, every dataset in order of process with the value of its field (a = hydrodynamic plus gravitational acceleration, missing directions zero), with iteration, physics::totaltime, physics::dt and the dimension, in one file or one file per snapshot; inputDataHDF5 gives any number of processes those particles in that order, the first N mod size processes one more, with position, velocity, m, rho, h, P, u, id, dt, type and state bit for bit, ids 1 to N where the file has none. '
     'A start at iteration 0 reads snapshot 0 and keeps time and time step, a restart finds the snapshot of the requested iteration wherever it lies and restores both; H5P_findIterationSnapshot gives -1 for an iteration that was never written. '
     'Reading removes exactly the old output of the output prefix in its directory (all of it when it differs from the input prefix, else in separate files the later snapshots) and output goes on with snapshot 0 or the one restarted from.',
     ['inputs', 'configurations', 'histories'], 'all particle data, any number of writing and reading processes, any number of snapshots with distinct iterations, D = 1, 2, 3; no disk errors',
     'No test writes or reads a snapshot; mistakes show only for particular counts, process numbers and restart histories.',
     ['mpisph/io.h'], [('write', 'mpisph/io.h: outputDataHDF5, H5P_writeDataset, H5P_setNumParticles'), ('read', 'mpisph/io.h: inputDataHDF5, H5P_bodiesReadDataset'), ('search and removal', 'mpisph/io.h: H5P_findIterationSnapshot, H5P_removePrefix, H5P_isPrefixSnapshot')],
     level='other', note='Proved, given contracts of HDF5 and MPI_Allgather: every data set of outputDataHDF5 for any number of particles (value, place, number), every field set by H5P_bodiesReadDataset, places of 1 to 6 processes. Bounded: generated histories of snapshots and restarts with 1 to 7 MPI processes and the real HDF5 library.',
     tech='contract-based deductive verification of writing and reading data sets; bounded runs stand in for restart histories (HDF5 and the file system are outside)', observe=['particles after inputDataHDF5', 'datasets of the file', 'files in the output directory'])
prop('P30', 'An iteration starts with all particles in one globally sorted order',
     'psort returns, for any counts of at least one element per process, the same elements in the same counts per process, in non-decreasing order within and across processes, ties in any order. '
     'getRange gives the smallest box of all positions plus and minus smoothing length over all processes, getSmoothinglength their largest smoothing length; update_iteration without periodic boundaries uses that range, gives every particle the key of its position, keeps every particle with all its data exactly once in key order with the counts per process, and builds a tree in which apply_in_smoothinglength hands every local particle once with its neighbours. '
     'apply_all and get_all then reach exactly the local particles, and nbodies, getNLocalBodies and getNBodies report their numbers.',
     ['inputs', 'configurations', 'histories'], 'all sets of elements and particles with distinct keys, any number of processes with at least one particle each, any number of iterations with moving particles, D = 1, 2, 3',
     'No test sorts across processes or starts an iteration; a lost or misplaced particle only shows for particular counts, ties and motions.',
     ['mpisph/psort.h', 'mpisph/bodies_system.h', TT], [('sort', 'mpisph/psort.h: psort, Split::split'), ('iteration', 'mpisph/bodies_system.h: update_iteration, mpi_compute_range, getSmoothinglength'), ('keys', TT + ': compute_keys')],
     level='other', note='Proved: range and largest smoothing length for any number of particles, given the contract of MPI_Allreduce. Bounded: the sort and whole iterations on generated data with 1 to 7 MPI processes, the sort also with address checking.',
     tech='contract-based deductive verification of the range and smoothing length; bounded runs stand in for the distributed sort and the iteration', observe=['local particles after update_iteration', 'elements after psort'])
prop('P27', 'Relaxation pushes particles apart, keeps them inside, and stops when settled',
     'WVT relaxation in two and three dimensions: the density is the kernel-weighted mass sum; the displacement acceleration is the sum over the given neighbours of a repulsion along the line between the two particles with the weight of the selected method (Arth: h_ab W(r,h_ab); Diehl: h_a times the positive part of (h/(r+0.3h))^2-(h/1.3h)^2, h the mean length, h_a for images) and zero outside the boundary sphere of radius wvt_radius. '
     'With the reflecting boundary a particle whose kernel reaches the sphere also feels the mirror images (same ray, 2R - r from the centre) of its inner neighbours (Arth: weight h_a W(r,h_ab) h_a^D) and its own image; with the frozen boundary such a particle keeps only the tangential part (twice the acceleration less its radial part). Nothing but acceleration and neighbour count changes. '
     'A displacement moves by wvt_mu times the acceleration (from a tenth of it falling linearly to zero in the cool-down), halved until it ends within 1.01 R, then reflected into the sphere, so a particle inside stays inside; density and smoothing length follow the profile. Rescaling makes the kernel volumes of all particles of all processes add up to wvt_ngb sphere volumes; the relaxation counts as converged iff fewer than wvt_convergence_point percent of all particles of all processes move by more than 1/1000 of their separation.',
     ['inputs', 'configurations'], 'all particle data and neighbour lists of any length (positive smoothing lengths, positions off the polar axis), D = 2, 3',
     'The relaxation test is not built; boundary images only matter for particles near the sphere.',
     ['include/physics/wvt.h'], [('acceleration', 'include/physics/wvt.h: wvt_acceleration_arth, wvt_acceleration_diehl, remove_radial_acc'), ('displacement', 'include/physics/wvt.h: wvt_displacement, wvt_set_density, compute_smoothinglength_wvt, check_convergence_wvt')],
     level='other', note='Proved for any neighbour list, given contracts of kernel, profile, boost::iequals and MPI_Allreduce: density, both accelerations under the three boundaries with their frames, polar coordinates and back, tangential part, density and length of the profile, rescaled lengths. Bounded: displacement (its halving loop) and the convergence count on 1 to 5 processes against references.',
     tech='contract-based deductive verification of the relaxation formulas; bounded runs stand in for displacement and convergence', observe=['particle accelerations, positions, densities and lengths', 'end of the relaxation'])

prop('P32', 'Parameter files set exactly the parameters they name, on every process',
     'Reading a parameter file gives every named parameter the value written there, by its documented type: integers and real numbers in full (fractions kept for real ones, the initial time among them), yes/true or not for booleans, texts with or without single or double quotes (blanks inside quotes kept), and for sph_kernel, eos_type and sph_viscosity the option of the key word in any case, with blanks or underscores. '
     'Every parameter not named keeps its value; a name given twice has the last value. Blank lines, lines starting with # after blanks or tabs, what follows # after a value, and blanks or tabs around name and value change nothing. A line without =, name or value, a name that is no parameter, or an unknown key word ends the program with an error instead of being ignored. All processes get the same parameters from the file of process 0.',
     ['inputs', 'configurations'], 'all parameters, all names and values, all files of such lines, any number of processes',
     'No test reads a parameter file; each of about 100 parameters is assigned by its own code.',
     ['include/params.h'], [('assignment', 'include/params.h: set_param, READ_* macros'), ('file', 'include/params.h: read_params, mpi_read_params')],
     level='other', note='Proved for every name and every value without comment or quotes, given contracts of the text library: each of the 105 parameters becomes its value iff it is named and is unchanged otherwise, each key word selects its option, unknown names and key words end the program, proper assignments do not. Bounded: splitting of lines, comments and quotes, number formats, and the distribution to 1 to 5 processes, on generated files.',
     tech='contract-based deductive verification of the assignment of every parameter; bounded reading of generated files stands in for lines, quotes and comments', observe=['parameters after the reading of a file', 'exit status'])

prop('P33', 'Initial data generators write the problem they are asked for',
     'The Sedov, Noh and shock tube generators write, for a parameter file without periodic boundaries and lattice perturbation, exactly the particles of the lattice asked for over the box (box_length, box_width, box_height around the origin) or ball (sphere_radius), with separation extent/(lattice_nx - 1), identifiers 0 to n-1 once each, and smoothing length sph_eta * kernel width * (m/rho)^(1/D). '
     'Sedov and Noh: equal masses adding up to rho_initial times the volume (a ball: profile normalised to rho_initial in the centre), density of the profile, internal energy of the polytrope through rho_initial and pressure_initial, pressure (gamma - 1) rho u, time step initial_dt; Sedov: at rest, with sedov_blast_energy in total shared by mass inside sedov_blast_radius; Noh: everything moves to the centre with noh_infall_velocity, the centre rests. '
     'Shock tube: the number of intervals is the largest multiple of three not above lattice_nx - 1; the middle third has the first, the outer thirds the second state of tests 1 to 6; with equal masses the outer separations follow the density ratio and every mass is that of the middle lattice. '
     'Kelvin-Helmholtz: equal masses, each density times the cell of its layer, equal pressure pressure_initial, velocities plus and minus half of flow_velocity and the seeded ripple; Rayleigh-Taylor: rho_initial below and density_ratio times it above the middle on their lattices, equal masses, pressure in hydrostatic equilibrium, the seeded vertical velocity in the stripe. '
     'The blast energy is complete also when the lattice is perturbed or a particle lies on the radius.',
     ['inputs', 'configurations'], 'all admissible parameters of the generators, D = 1, 2, 3',
     'No test runs a generator.',
     ['app/id_generators/sedov/main.cc', 'app/id_generators/noh/main.cc', 'app/id_generators/sodtube/main.cc', 'app/id_generators/KH/main.cc', 'app/id_generators/RT/main.cc'],
     [('derived parameters', 'app/id_generators/{sedov,noh,sodtube}/main.cc: set_derived_params'), ('particles', 'app/id_generators/{sedov,noh,sodtube}/main.cc: main')],
     level='other', note='Proved: set_derived_params of the Sedov, Noh and shock tube generators (box, separation, total and particle mass, smoothing length, energy; all six shock tubes and their regions) given contracts of lattice count (P24), profile (P21) and the installation of selected functions. Bounded: the particles written, read back from the file, for generated parameters. Equal-separation tubes only for the middle box of unit volume. Kelvin-Helmholtz and Rayleigh-Taylor only by whole runs.',
     tech='contract-based deductive verification of the derived parameters; bounded runs of the generators stand in for their particle loops and files', observe=['particles in the file written'])

prop('P31', 'A simulation follows the time-stepping scheme on any number of processes',
     'Starting the hydro or newtonian driver with a parameter file and an initial snapshot writes, at every output iteration, the particles the kick-drift-kick scheme gives, whatever the number of processes: first density, pressure and sound speed, then signal speed, viscosity switch and acceleration (relaxation terms before relaxation_steps) from the neighbours\' values of this iteration, '
     'half kick before and after the drift, energy rates (total energy when thermokinetic_formulation, else internal) from the velocities after the second half kick with pressure_updates_number passes, smoothing length and time step last, each new time the old one plus the step. '
     'No stage that visits neighbours reads from them a quantity the same stage writes, so the order in which particles are visited plays no part; the half-step-ahead pressure and sound speed use energy plus half a step times its rate and leave the energy as it was. A result depends on the input data only, never on unset memory.',
     ['inputs', 'configurations', 'histories'], 'all initial particles and parameters that stay physically admissible, any number of processes, any number of iterations, D = 1, 2, 3',
     'No test starts a driver; a missing exchange of neighbour data only shows with several processes and neighbours across their borders.',
     ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', DP, 'include/physics/body.h', 'include/physics/integration.h'],
     [('driver', 'app/drivers/{hydro,newtonian}/main_driver.cc: mpi_init_task'), ('stages', DP + ': compute_density_pressure_soundspeed, recompute_pressure_soundspeed*'), ('exchange', 'mpisph/bodies_system.h: reset_ghosts, update_iteration')],
     level='other', note='Proved, given contracts of kernel, viscosity and equation of state: every neighbour stage is independent of the visiting order, for any neighbour list; the half-step-ahead pressure. Bounded: whole runs of both drivers on generated data and parameters with 1 to 5 MPI processes against a stage-by-stage reference.',
     tech='contract-based deductive verification that stages are independent of the visiting order; bounded whole runs of the drivers stand in for the sequence of stages (FleCSI start-up replaced by a stand-in)', observe=['particles, time and time step in the snapshots of a run'])
