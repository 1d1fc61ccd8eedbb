#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Two-mode nodes are exactly the product of their couplers and phase shifters',
     'For every phase setting, every left/right splitting error and every phase style, the transfer matrix of a two-mode interferometer node equals the ordered product of its two directional couplers and its internal and external phase shifters, and without loss it is unitary. '
     'Every representation of the same node (single node, embedded in a larger system, vectorised over many nodes, numpy or jax) is the same matrix, and an embedding acts as the identity on all other modes. '
     'A non-positive insertion figure in dB never makes a node amplify.',
     ['inputs', 'configurations'], 'all phases, split errors, losses, phase styles, node positions and numbers of nodes',
     'Tests compare a few random angles at zero error; the identity is over continuous phases, errors and all styles.',
     ['simphox/circuit/coupling.py', 'simphox/circuit/forward.py'],
     [('node matrices', 'coupling.py: CouplingNode.dc/mzi_node_matrix/_embed_2x2'), ('vectorised nodes', 'forward.py: _parallel_mzi/_parallel_dc/_mzi_terms')],
     ['matrices returned by the public node and mesh functions'])

prop('C02', 'A mesh is the ordered product of its nodes: linear, unitary, backend independent',
     'For every mesh, every parameter setting and every input, the computed output equals applying each column of nodes in order, each node acting only on its own two modes, followed by the output phase screen; it is linear in the input and conserves power exactly when lossless. '
     'The numpy and the jax implementation, the matrix and the propagation of individual inputs all give that same map. '
     'Calling any of them leaves the caller\'s inputs and the mesh parameters unchanged.',
     ['inputs', 'configurations'], 'all mesh sizes, topologies with disjoint pairs per column, parameters, errors and input vectors or matrices',
     'Tests sample sizes up to 9 with random parameters; unitarity and linearity quantify over all columns, pairs and parameters.',
     ['simphox/circuit/forward.py'],
     [('column update', 'forward.py: _parallel_transform'), ('mesh loop', 'forward.py: ForwardMesh.matrix_fn'), ('padding of ragged columns', 'forward.py: ForwardMesh.idx')],
     ['ForwardMesh.matrix / matrix_fn / propagate'])

prop('C03', 'Light sent backwards sees the transposed circuit',
     'For every node and every mesh, for every phase style, parameter setting and splitting error, the map computed for backward propagation is the transpose of the forward map. ',
     ['inputs', 'configurations'], 'all phases, unequal left/right splitting errors, phase styles, topologies',
     'Existing tests use error-free nodes in one style, where left/right asymmetry is invisible.',
     ['simphox/circuit/forward.py'],
     [('backward elements', 'forward.py: _parallel_mzi(back=True)'), ('column order reversal', 'forward.py: matrix_fn(back=True)')],
     ['ForwardMesh.matrix(back=True)', 'ForwardMesh.propagate(back=True)'])

prop('C04', 'Generated mesh topologies are well formed for every size',
     'For every size, the generated tree, chain, triangular, rectangular, butterfly and cascade meshes contain exactly the architectural number of nodes, each node couples two distinct valid modes, nodes sharing a column never share a mode, and node indices are a permutation. '
     'In a tree every non-output mode is nulled exactly once, by a node whose inputs are settled in earlier columns.',
     ['inputs', 'configurations'], 'every number of modes n >= 2, balanced or not',
     'Tests enumerate a handful of small sizes.',
     ['simphox/circuit/vector.py', 'simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py', 'simphox/circuit/forward.py'],
     [('tree recursion', 'vector.py: _tree'), ('column labels', 'forward.py: invert_columns/columns')],
     ['nodes, columns of the returned mesh'])

prop('C05', 'Programming a node or vector unit routes all power to one output',
     'For every non-zero complex vector, the phases computed for a node route all of the power of its two inputs into one output, whenever the splitting errors of the node permit it, for every supported phase style. '
     'A programmed tree or chain therefore sends a vector entirely to its last mode with zero phase, and its analysis row is the normalised conjugate of the vector.',
     ['inputs', 'configurations'], 'all complex input vectors, sizes, splitting errors, phase styles',
     'Tests draw a few random vectors with zero error; the claim is over all complex amplitudes including zeros.',
     ['simphox/circuit/vector.py', 'simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
     [('nullification phases', 'forward.py: parallel_nullify; coupling.py: transmissivity_to_phase, direct_transmissivity'), ('tree programming', 'vector.py: _program_vector_unit')],
     ['ForwardMesh.matrix', 'vector_unit'])

prop('C06', 'Decomposed meshes reproduce the unitary they were built from',
     'For every unitary matrix of every size, the programmed cascade, triangular, rectangular and bowtie circuits implement that unitary (in the documented orientation), and the photonic singular value decomposition reproduces its matrix. '
     'The cosine-sine factors multiply back to the factored matrix.',
     ['inputs'], 'all unitary matrices, sizes and supported phase styles',
     'Tests use Haar-random matrices only (never identity, permutations or reducible matrices) and a few sizes.',
     ['simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py'],
     [('cascade', 'matrix.py: cascade'), ('rectangular', 'rectangular.py: rectangular, rectangular_decomposition'), ('cosine-sine', 'matrix.py: cs/csinv')],
     ['ForwardMesh.matrix of the returned mesh'])

prop('C07', 'Grids tile the simulation box exactly',
     'For every size and spacing (one number, or one per axis) a grid has round(size / spacing) cells along each axis, each of the given width, edges that start at zero and are one width apart (one more edge than cells; a single edge at zero for one-cell or missing axes), and its centre half way. Missing axes are one cell with infinite spacing and zero size, and one spacing for all axes is that spacing on every axis. Without an absorber the primal and dual (half-offset) widths of a Yee grid equal the cell width. Flat field vectors are component-major. A safe placement moves a location only as far as needed to keep clear of the absorber, and unusable absorbers, spacings or permittivity arrays are rejected. The permittivity array of the caller is never written.',
     ['inputs', 'configurations'], 'all shapes, spacings, dimensions 1-3, scalar or per-axis or per-cell spacing',
     'Tests check a couple of shapes with unit spacing.',
     ['simphox/grid.py'],
     [('grid construction', 'grid.py: Grid.__init__'), ('dual spacings', 'grid.py: YeeGrid.__init__')],
     ['Grid.pos/cells/spacing', 'YeeGrid.dx'])

prop('C08', 'Writing a region of the grid changes exactly that region',
     'Converting a centre and a size to index ranges, and filling, adding, masking or assigning permittivity through them, changes exactly the cells whose index lies in the requested box (clipped to the grid) and no other cell, and every value written is the requested one; filling up to a height changes exactly the cells below it along the last axis, and a non-positive height fills everything. Reading the same region back gives the written values. Adding a pattern registers its ports at their requested positions and rejects every pattern that is out of bounds.',
     ['inputs', 'configurations'], 'all grid shapes, spacings, centres and sizes including boxes that touch or cross an edge',
     'Tests use a few aligned boxes away from the edges.',
     ['simphox/grid.py'],
     [('index ranges', 'grid.py: Grid.slice/mask'), ('permittivity writes', 'grid.py: Grid.fill/set_eps/mask_eps')],
     ['Grid.eps'])

prop('C09', 'Difference operators: matrix, functional and dual forms are the same operator',
     'For every grid (any shape and widths, including the complex widths of absorbers) the forward and backward difference matrices equal the stencil (difference of neighbours over the primal or dual width, wrapping periodically with the Bloch phase; zero along one-cell axes), their functional forms in numpy and jax apply the same operator, and with equal weights the backward operator is minus the adjoint of the forward one. Differences annihilate constants when the Bloch phase is zero.',
     ['inputs', 'configurations'], 'all shapes, spacings, Bloch phases, axes and fields',
     'Tests compare printed matrices for 2-4 cells.',
     ['simphox/grid.py', 'simphox/utils.py'],
     [('matrices', 'utils.py: d2curl_op, curl_fn; grid.py: YeeGrid.deriv / deriv_forward / deriv_backward'), ('functional', 'grid.py: diff_fn / curl_e / curl_h')],
     ['YeeGrid derivative operators'])

prop('C10', 'Discrete vector calculus: div curl = 0 and curl-curl is consistent',
     'For every grid, set of widths, Bloch phase and field, the divergence of the curl of any field vanishes cell by cell (for both the electric and the magnetic placement), the discrete curl applied as a function equals the curl as a matrix, and the curl-curl operator used by the solvers is exactly the composition of the two curls. With a propagation constant, derivatives along the missing axis become multiplication by -i beta.',
     ['inputs', 'configurations'], 'all shapes, non-uniform spacings and fields',
     'Tests look at individual small arrays.',
     ['simphox/utils.py', 'simphox/grid.py'],
     [('curl', 'utils.py: curl_fn, d2curl_op, d2curl_fn')],
     ['curl functions and matrices'])

prop('C11', 'Frequency-domain operator and fields satisfy discretised Maxwell equations',
     'For every grid, permittivity, wavelength, Bloch phase and absorbing boundary, the assembled three-dimensional frequency-domain operator is curl-curl minus k0 squared times the permittivity averaged onto each field component; in two dimensions the e_z operator is minus the discrete Laplacian minus k0 squared times permittivity, and the h_z operator is minus the differences weighted by the inverse permittivity of the electric component they give, minus k0 squared. A solve asks the linear solver (the given one, else the direct one, or in 3D gmres or bicgstab when iterative is 1 or 2) for exactly that operator with k0 times the source (3D and e_z: provided the solver returns a solution, i k0 h = curl e and curl h + i k0 eps e = -i source in every cell; h_z: the returned e is curl h / (i k0 eps)), the differentiable field functions pose the same system and return the same fields, and sources of the wrong size are rejected.',
     ['inputs', 'configurations'], 'all shapes, permittivity arrays, wavelengths, sources',
     'Tests check a few fixed arrays against stored numbers.',
     ['simphox/fdfd.py'],
     [('operator', 'fdfd.py: FDFD.mat / mat_ez / mat_hz / wgm'), ('solve', 'fdfd.py: FDFD.solve'), ('field conversion', 'grid.py: e2h / h2e')],
     ['FDFD.mat', 'FDFD.solve'])

prop('C12', 'Gradients returned by differentiable solves are the true derivatives',
     'The differentiable linear solve asks for exactly the matrix of its entries at their indices and the given right hand side. For every sparse matrix (also with repeated entries), right hand side and cotangent, its reverse-mode rule is the adjoint of the linearised solve: the gradient with respect to the source solves the transposed system, and that of each entry is minus this solution at its row times the solved vector at its column, so that pairing the cotangent with any perturbation of the solution equals pairing the gradients with the perturbations of matrix and source. The differentiable mode operators give the entries of backward difference times diagonal(t) times forward difference, for every grid, and their reverse rule is the real part of the transposed linear map. Gradients of the differentiable fields therefore are the true derivatives.',
     ['inputs'], 'all sparse matrices, right hand sides and cotangents',
     'Tests compare one finite difference on one matrix.',
     ['simphox/primitives.py'],
     [('adjoint rules', 'primitives.py: spsolve vjp, TMOperator vjp')],
     ['jax.grad through the solver'])

prop('C13', 'A time step is the leapfrog update law, exactly, for every state',
     'One time-domain step maps every electric and magnetic state to the update law: e advances by dt curl h / eps, then h by minus dt curl of the new e; every source is subtracted once (times dt, over permittivity for e) in its region and nowhere else, sources superpose; in every absorber region the memory becomes b psi + c grad and the field gets the curl of the new memory. This holds in one to three dimensions, in both the numpy and the jax implementation. A step does not modify the state it was given, and a harmonic run of n steps applies the step n times with the mode profiles times exp(i k dt k0), measuring e and the mean of h before and after.',
     ['inputs', 'histories', 'configurations'], 'all states, shapes, permittivities, sources, number of steps',
     'Tests run one fixed source for a few steps.',
     ['simphox/fdtd.py'],
     [('step', 'fdtd.py: FDTD.step / step_h / step_e'), ('loop', 'fdtd.py: FDTD.run')],
     ['FDTD.step', 'FDTD.run'])

prop('C14', 'Source-free time stepping conserves discrete energy and is reversible',
     'Without source and absorber, for every state, grid and permittivity, one time step conserves the discrete leapfrog energy: in every cell the energy density changes by a discrete divergence of the Poynting flux (so the sum over the periodic grid is constant), and stepping back with the opposite time step recovers the state. The automatically chosen time step is exactly the Courant limit 1 / sqrt(sum 1 / spacing^2), so it never exceeds the stability limit for permittivity of at least one.',
     ['inputs', 'histories'], 'all states, shapes, spacings, permittivities >= 1, hence all numbers of steps',
     'No test looks at conserved quantities.',
     ['simphox/fdtd.py'],
     [('Courant step', 'fdtd.py: FDTD.__init__'), ('curl pairing', 'grid.py: curl_e / curl_h')],
     ['FDTD.dt', 'FDTD.step'])

prop('C15', 'Absorbing layers act only inside their thickness and never amplify',
     'For every grid and layer thickness, the absorbing-layer coordinate stretch is exactly one outside the layer; inside it is 1 + i (p + 1) depth^p log R / (2 k0 eps), whose loss has one sign and a magnitude that grows monotonically towards both ends of the axis, and the cell widths of the frequency-domain solver are the spacing times that stretch. The time-domain absorber coefficients are b = exp(-(sigma + alpha) dt) and c = (b - 1) sigma / (sigma + alpha) with sigma >= 0 and zero outside the layer of their own axis (so never of magnitude above one). A solver made from a simulation grid keeps the thickness.',
     ['inputs', 'configurations'], 'all thicknesses, spacings, shapes and wavelengths',
     'The tests of absorbing layers currently fail or only test one thickness.',
     ['simphox/grid.py', 'simphox/utils.py', 'simphox/fdtd.py'],
     [('pml profile', 'utils.py: pml_params; grid.py: YeeGrid.pml_params; fdtd.py: cpml')],
     ['stretch factors and absorber coefficients'])

prop('C16', 'Waveguide mode operators are the discretised eigenproblem of Maxwell equations',
     'For every cross-section (1D or 2D, any widths and permittivity) and wavelength, the mode operator is the discretised eigen-operator: in 1D the forward difference of the backward difference plus k0^2 eps; in 2D, on (hx, hy), eps (of the electric component in the other direction) times the curl of 1/eps_z times the z-curl, plus the gradient of the divergence, plus k0^2 eps. A solve keeps exactly the eigenpairs with positive eigenvalue, by decreasing propagation constant, the constant being the root of the eigenvalue and staying paired with its own mode (up to a unit phase; hz of a 2D mode is the divergence of (hx, hy) over i beta). Then e = curl h / (i k0 eps) and curl e = -i k0 h hold with the derivative along the propagation axis -i beta. Fields, index n = beta/k0, phases and beat lengths of a mode library are those of the indexed mode, a new wavelength solves again, and a dispersion sweep solves once at each wavelength.',
     ['inputs', 'configurations'], 'all cross-sections, permittivities, wavelengths, numbers of modes',
     'Tests check stored numbers of a few fixed waveguides.',
     ['simphox/mode.py'],
     [('operators', 'mode.py: ModeSolver.waveguide_mode_matrix'), ('solve', 'mode.py: ModeSolver.solve'), ('fields', 'mode.py: ModeSolver.h2e/e2h, ModeLibrary')],
     ['ModeSolver.waveguide_mode_matrix / solve', 'ModeLibrary'])

prop('C17', 'Poynting flux, overlaps and mode measurements are correct bilinear forms',
     'The Poynting flux along an axis is that component of e times the conjugate of h (cyclic cross product), each product using the average of the neighbouring cells across the section, in numpy and in jax. The measurement functions of a mode are linear in the measured field: their two amplitudes are sum and difference of the normalised projections on the electric and on the magnetic profile of the mode, so a mode measures itself as (1, 0), reversed (magnetic field negated) as (0, 1), and numpy and jax agree. Evolving a mode over a distance multiplies each mode by its own phase, and placing a mode into a 2D or 3D grid fills exactly its section of the grid with the field in the orientation which viewing that section undoes.',
     ['inputs', 'configurations'], 'all fields, axes, shapes',
     'Tests evaluate fixed random arrays or stored values.',
     ['simphox/utils.py', 'simphox/mode.py', 'simphox/sim.py'],
     [('poynting', 'utils.py: poynting_fn'), ('measure', 'mode.py: ModeLibrary.measure_fn')],
     ['poynting_fn', 'measure functions'])

prop('C18', 'Scattering parameters are labelled and ordered as requested',
     'For every list of requests (ports in any order, several modes of one port), the i-th column of a measurement holds the two amplitudes of the i-th requested (port, mode), the one leaving the device (along the angle of the port) first. A source is the sum over the requested (port, mode) of weight times the mode profile placed two cells inward, minus, when unidirectional, its copy one cell further delayed by the phase of one cell of that mode; only requested ports are excited. Modes are solved at the wavelength given, by default that of the simulation, with enough modes for the highest request. Scattering parameters are the leaving amplitudes of the requested ports in their order over the amplitude entering the source port; the fidelity cost is minus the power overlap of measured and normalised desired parameters. Ports and excitations are accepted as a name (mode 0), a pair, lists of these, dictionaries of weights or of mode lists, also single or empty, and default to all ports.',
     ['inputs', 'configurations'], 'all port sets, orders, multiplicities of modes and specification forms',
     'Tests use two-port devices in natural order with one mode.',
     ['simphox/sim.py', 'simphox/parse.py'],
     [('parsers', 'parse.py'), ('measurement order', 'sim.py: get_measure_fn'), ('source', 'sim.py: SimGrid.port_source'), ('modes', 'sim.py: SimGrid.port_modes / modes'), ('parameters', 'sim.py: get_sim_sparams_fn; fdfd.py: FDFD.sparams')],
     ['SimGrid.get_measure_fn', 'SimGrid.port_source'])

prop('C19', 'Symmetrisation and design-region helpers are exact projections',
     'For every array of any odd or even shape (square for diagonals) and every combination of flags, the symmetry functions return an array invariant under the requested reflections and leave an array which already has them unchanged; symmetrising twice is symmetrising once, averaging takes the mean of the exchanged cells, and otherwise the first half of an axis is mirrored. (A diagonal together with only one of the two axes: the result has the diagonal symmetry.) A mask, of one box or of a list of boxes, keeps the design inside the boxes and the initial values everywhere else. Smoothing is the tanh threshold of the mean over a disk and keeps values between zero and one there.',
     ['inputs', 'configurations'], 'all arrays, odd and even shapes, all symmetry flags',
     'Tests use one shape and flag combination.',
     ['simphox/transform.py'],
     [('symmetry', 'transform.py: get_symmetry_fn'), ('mask', 'transform.py: get_mask_fn'), ('smoothing', 'transform.py: get_smooth_fn')],
     ['transform functions'])

prop('C20', 'A reused direct solver never answers with a stale factorisation',
     'For every history of factorisations, solves, frees, failing calls and changes of a matrix in place, each answer of a direct solver solves the matrix as it was passed to that call: stored factors are used only when that matrix has exactly the content of the factorised one (every entry and its place), and never after a failed or freeing call. Every right hand side column is answered in its own column, arguments are not changed, a right hand side of the wrong size and a failing factorisation are reported, and nothing is answered before a matrix is given.',
     ['histories', 'inputs'], 'all sequences of matrices and right hand sides',
     'Tests never solve two matrices through one solver.',
     ['simphox/mkl.py'],
     [('factorisation cache', 'mkl.py: Pardiso.solve / factor / free / pardiso')],
     ['Pardiso.solve'], state=[('cached factorisation', 'matrix the current factors belong to', 'mkl.py: Pardiso')])

prop('C21', 'Derived quantities always reflect the current permittivity',
     'After any history of reads and permittivity changes (assignment, writing cells or regions, filling, adding a component, changing a copy) the averaged permittivity, the assembled frequency-domain and mode operators, the system and fields of a solve, the update of a time step and the modes of a section (for any centre, size, wavelength and number of modes requested) are those of a new simulation of the current permittivity, never of an earlier one.',
     ['histories', 'configurations'], 'all interleavings of reads and writes',
     'Tests read once after construction.',
     ['simphox/grid.py', 'simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/sim.py'],
     [('cached permittivity average', 'grid.py: YeeGrid.eps_t; fdtd.py: FDTD.eps_t'), ('mode cache', 'sim.py: SimGrid.modes')],
     ['eps_t, mat, modes'], state=[('permittivity', 'cell-centred material array, writable by the user', 'grid.py: Grid.eps')])

prop('C22', 'Box and waveguide geometry helpers place material where documented',
     'For every box, centring, alignment and flush placement produce exactly the requested edge relations without changing sizes, and a waveguide cross-section contains core permittivity exactly inside the core (and rib/slab/vertical parts) and background elsewhere. A simulation made from a pattern holds core inside the pattern (in three dimensions between its zmin and zmin + thickness), cladding below the substrate height, core in a rib above it and background elsewhere (cladding when there is neither substrate nor rib).',
     ['inputs', 'configurations'], 'all sizes, positions, spacings and optional parts',
     'Tests look at a few fixed boxes.',
     ['simphox/utils.py', 'simphox/grid.py', 'simphox/mode.py'],
     [('Box', 'utils.py: Box'), ('block design', 'grid.py: block_design')],
     ['Box attributes', 'Grid.eps'])

prop('C23', 'Optimisation bookkeeping: history, best state and step count are faithful',
     'For every list of problems (with or without simulation, source, transform and metrics), every cost function, starting point and positive number of iterations, an optimisation run performs exactly that many updates, numbered from zero, each with the gradient of the mean cost of all problems at the parameters of the previous one; it returns the parameters after the last update and the costs before each, and leaves every simulation with the transformed final parameters. At every multiple of a requested interval it records, per problem with a simulation and source and under its name, the metrics and field of that step and the permittivity after it; without an interval nothing is recorded. A progress bar or visualiser changes nothing of this; the visualiser receives the costs and metrics so far.',
     ['inputs', 'histories'], 'all cost functions, iteration counts, optional arguments',
     'Tests always pass all optional arguments.',
     ['simphox/opt.py'],
     [('loop', 'opt.py: opt_run')],
     ['opt_run result'])

prop('C24', 'Measured in-situ gradients equal analytic gradients of the mesh',
     'For every lossless mesh with explicit shifters in the top or bottom arms (any topology, node order and coupler errors), every phase setting, every input (a vector, a column or several columns, real or complex) and every cotangent, with noise disabled the in-situ (optical) backpropagation rule returns, for both measurement modes (all analog or with digital subtraction), the output of the mesh, the analytic gradient of every internal, external and output phase in the order and shape of the parameters, and the analytic gradient of the inputs; vanishing inputs or cotangents give vanishing gradients, not NaN.',
     ['inputs', 'configurations'], 'all meshes, parameters, inputs and cotangents',
     'Tests sample a few random rectangular meshes in one phase style.',
     ['simphox/circuit/forward.py'],
     [('in-situ rule', 'forward.py: in_situ_matrix_fn'), ('localisation', 'forward.py: phase_shift_localize')],
     ['gradients through in_situ_matrix_fn'])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        p['statement'] = p['statement'].strip()
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
