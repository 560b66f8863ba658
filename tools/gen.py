"""Writes properties.jsonl and MANIFEST.json from one table (run it after editing the table)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({"state": state} if state else {}), **({"observe_at": observe} if observe else {}),
                                hook_needed=None)), tech, note))


CI = "simphox/circuit/"
ENUM = "bounded exhaustive enumeration of inputs/configurations of the real code against a reference model"
prop("C01", "Programming a matrix into an architecture reproduces it exactly",
     "A unitary matrix programmed into the triangular, rectangular or tree-cascade architecture (in any phase style the builder accepts) "
     "gives a circuit whose transfer matrix is that unitary, and the SVD architecture reproduces any complex matrix up to the reported gain; "
     "this includes degenerate matrices (identity, permutations, diagonal and block-diagonal matrices, repeated singular values). "
     "The matrix that was passed in is not modified, and inverse parameters are finite.",
     ["inputs", "configurations"],
     "all products of up to L beam splitters/phase shifters/permutations from a small alphabet (degenerate cases included) x architectures x phase styles x sizes",
     "Tests program a handful of Haar-random unitaries, which are never degenerate; nullification has branches for zero entries and phase styles that those never reach.",
     [CI + "rectangular.py", CI + "vector.py", CI + "matrix.py", CI + "forward.py"],
     [("triangular/rectangular/unitary programming", CI + "rectangular.py, " + CI + "vector.py"), ("SVD", CI + "matrix.py"), ("nullification", CI + "forward.py parallel_nullify")],
     "explicit enumeration of a finite unitary group fragment (words over gates) driving the real code; oracle: reference product of 2x2 matrices",
     "every word over the gate alphabet up to the bound is programmed; floating point tolerance 1e-6/3e-5; sizes beyond the bound not covered",
     ["transfer matrix of the returned circuit", "parameters of the circuit"])
prop("C02", "Vector units route the vector they are programmed with to one port",
     "A vector unit (tree of any balance, linear chain, in any phase style and direction) programmed with a nonzero complex vector, including vectors with zero entries, "
     "sends that vector's whole power to its single documented port, and, run backwards, generates it up to a global phase. "
     "With unequal coupler errors the same holds whenever the required splitting ratios are reachable, and sorting or re-balancing the unit does not change it.",
     ["inputs", "configurations"],
     "all vectors over a small alphabet with zeros, signs, phases and scales, sizes 2..7 x unit shapes x phase styles x coupler errors",
     "Tests use random dense vectors of a few sizes, never zeros, never errors in each style.",
     [CI + "vector.py", CI + "forward.py"], [("vector_unit/tree/chain construction and nullification", CI + "vector.py")],
     ENUM, "all vectors of the alphabet at small sizes, a fixed stride of them at larger sizes", ["node thetas/phis", "propagated power"])
prop("C03", "Every evaluation path of a circuit is the same linear map",
     "For any circuit (nodes on any pair of rails, any column layout and numbering, any phase style, coupler errors and losses), the transfer matrix function, "
     "explicit layer-by-layer propagation, column propagation, the per-column and per-node matrices and their numpy and JAX variants, "
     "all equal the product of the single-node matrices in column order with the output phases, for single vectors, blocks of vectors and the default input. "
     "Backward propagation is the transpose (reciprocal) map, and evaluation never modifies the circuit or the inputs.",
     ["inputs", "configurations", "programs"],
     "all circuits of <=k nodes on 3 rails with every numbering, named architectures x styles x errors x losses x parameter words x evaluation functions",
     "Tests compare two of the paths on random lossless square meshes only.",
     [CI + "forward.py", CI + "coupling.py"], [("matrix_fn", CI + "forward.py"), ("propagate/explicit propagate", CI + "forward.py"), ("nodes/columns to matrices", CI + "coupling.py")],
     "explicit-state enumeration of small circuits (programs) executed on the real code, all evaluation functions compared with a reference interpreter of the node list",
     "every circuit within the bound; tolerance 3e-5 (single precision defaults)", ["transfer matrices", "propagated fields"])
prop("C04", "Circuits conserve energy, are passive with loss, and are reciprocal",
     "Without loss a circuit's transfer matrix is unitary for every phase setting, phase style and coupler error, and with losses its singular values never exceed one, in the numpy and the JAX evaluation. "
     "The backward transfer matrix is the transpose of the forward one, and the power of the fields inside a circuit is conserved (without loss) or never grows (with loss) from layer to layer in either direction.",
     ["inputs", "configurations"],
     "all small circuits and named architectures x phase styles x phase words x errors x losses",
     "Tests check unitarity for random phases of one mesh without errors or losses.",
     [CI + "forward.py", CI + "coupling.py"], [("node transfer coefficients", CI + "coupling.py"), ("matrix_fn", CI + "forward.py")],
     ENUM, "invariants checked in every enumerated configuration; tolerance 3e-6", ["transfer matrix"])
prop("C05", "Architectures are wired as documented for every size",
     "For every size from two rails on, the trees (balanced, linear, embedded in more rails), butterflies, rectangular and triangular meshes and tree cascades have the number of nodes, the depth and the connections of their definition; a tree nulls every rail but the last once, on a path that ends at the last rail. "
     "Every node connects two distinct existing rails, nodes of one column share no rail, the columns partition the nodes, and node numbers are 0..N-1. Per-column index tables (forward and backward) and the recorded sets of nodes upstream of each arm agree with that wiring.",
     ["configurations"], "every size 2..20 (48 thorough) of every architecture and option",
     "Tests look at a few sizes (powers of two); off-by-one wiring at odd sizes is not covered.",
     [CI + "rectangular.py", CI + "vector.py", CI + "forward.py"], [("builders", CI + "rectangular.py, " + CI + "vector.py"), ("column bookkeeping", CI + "forward.py")],
     "exhaustive enumeration of sizes and options against independently written wiring diagrams", "all sizes up to the bound", ["node list, columns"])
prop("C06", "In situ backpropagation measures the true gradient",
     "For a lossless circuit, the gradients computed by the in situ backpropagation protocols (forward, backward and sum fields, either measurement variant) equal the derivative of the cost with respect to every phase of the circuit and with respect to the inputs, "
     "for any single vector or block of inputs, cost function, node numbering, phase point and coupler errors. "
     "A vanishing error signal or input gives a zero gradient, never NaN.",
     ["inputs", "configurations"], "small circuits with every numbering and named architectures x styles x errors x protocols x inputs x costs x phase points",
     "Tests compare one architecture with autodiff at random points.",
     [CI + "forward.py"], [("matrix_fn in situ custom vjp", CI + "forward.py")],
     ENUM, "central differences of a reference product, tolerance 1e-4-ish", ["gradients returned by jax.grad / the protocol"])
prop("C07", "Reprogramming by parallel nullification restores a circuit from any state",
     "The basis of vectors that nulls a circuit's nodes column by column, measured on a reference circuit, reprograms a circuit of the same wiring in any other state to the same transfer matrix up to output phases, in every phase style. "
     "This also holds if the reprogrammed circuit has different (reachable) coupler errors, and the circuit that only supplies the basis is not modified.",
     ["inputs", "configurations", "histories"], "all small circuits and named architectures x theta words x styles x start states x errors",
     "Tests cover one rectangular mesh at random phases without errors.",
     [CI + "forward.py"], [("nullification_basis / parallel_nullify", CI + "forward.py")],
     ENUM, "every enumerated state pair is reprogrammed on the real code", ["thetas, phis, transfer matrix"])
prop("C08", "Deriving circuits keeps node identity and leaves ancestors unchanged",
     "Every sequence of circuit derivations (adding errors or losses, ordering columns, aggregating columns or nodes, copying with new parameters, rebuilding from nodes, appending circuits) keeps each node's rails, phases, errors and losses attached to that node, "
     "so the derived circuit has the transfer matrix that the sequence prescribes. No derivation changes the circuit it started from.",
     ["histories"], "all histories of <=2 (3) derivations out of ten from seven circuits",
     "Tests call single derivations on freshly built meshes; order-dependent mix-ups need sequences.",
     [CI + "forward.py"], [("add_error_*, aggregate, column_ordered, params setters", CI + "forward.py")],
     "breadth-first exploration of operation histories on the real objects in lockstep with a reference record", "all histories up to the depth", ["transfer matrix", "node attributes"])
prop("C10", "Couplers, nodes and factorizations satisfy their algebra",
     "For all angles, coupler errors and losses, every coupler and node primitive equals the product of its physical parts (phase shifters, couplers, attenuators) in every phase style, the phase for a splitting ratio gives that ratio clipped to what the couplers can reach, and nullifying a 2-vector darkens one port and conserves power. "
     "The cosine-sine decomposition of every unitary, including degenerate ones, has unitary factors and angles in [0, pi/2] and its inverse reconstructs the unitary; the Dirichlet matrix of every vector without zeros is unitary and collects that vector in its last port.",
     ["inputs"], "all pairs of angles and errors of a finite grid x losses x styles; all degenerate unitaries from gate words",
     "Tests use random generic angles and unitaries; degeneracies have measure zero.",
     [CI + "coupling.py", CI + "component.py", CI + "matrix.py"], [("CouplingNode", CI + "coupling.py"), ("cs/csinv", CI + "rectangular.py")],
     ENUM, "complete finite grid of parameters; double precision", ["2x2 matrices", "CS factors"])
prop("C11", "Built-in coupler errors and losses are recorded and compensated",
     "For all error and loss statistics and every draw of the random generator, the circuit that an architecture generator (vector unit, balanced or unbalanced tree, triangular, tree cascade) or add_error_mean/add_error_variance returns records for each node exactly mean + std * draw for its coupler errors (left equal to right unless asked otherwise) and losses, its transfer matrix is that of those imperfect nodes, and the mesh it came from is unchanged. "
     "Programming compensates coupler errors: whenever the needed splitting is reachable the lossless circuit still implements the vector or unitary exactly; the fields a vector unit returns are those that propagate through its imperfect nodes, and losses never amplify.",
     ["inputs", "random draws"], "all draw words of a finite alphabet x statistics x generators x styles on small circuits",
     "Tests sample one random error; compensation must hold for each realization.",
     [CI + "vector.py", CI + "matrix.py", CI + "forward.py"], [("vector_unit", CI + "vector.py"), ("cascade", CI + "matrix.py"), ("add_error_variance", CI + "forward.py")],
     ENUM, "all words of three draws over {-1,0,1}; up to 4 (6) rails", ["statistics", "generators"])
prop("R01", "Circuits with random phases are uniformly (Haar) random",
     "A circuit made without phases draws them so that it is uniformly random, for every size: the transfer matrix of a rectangular or triangular mesh or tree cascade is Haar distributed, the vector collected by a tree (balanced, linear, embedded) or by an output of a butterfly is uniform on the sphere. "
     "The splitting ratio of each node is Beta distributed with the numbers of inputs behind its arms (or the architecture's exponents), clipped to what its couplers reach, all other phases are uniform, every phase has its own independent draw, and the weights stay with their nodes whatever the order in which the nodes are listed (a known finding for trees and reordered nodes), and for copies with coupler errors.",
     ["inputs", "random draws"], "architectures x sizes x listings x styles; every quantile of a grid for every phase; every single draw varied alone",
     "Tests never look at the distribution of initial phases; a statistical test would be sampling, the quantile functions are enumerated here.",
     [CI + "forward.py", CI + "vector.py", CI + "rectangular.py"], [("ForwardMesh.rand_s, rand_theta", CI + "forward.py"), ("alpha, beta of nodes", CI + "vector.py, " + CI + "rectangular.py get_alpha_checkerboard")],
     ENUM, "oracle: exponents of the volume element of the reference circuit by all phases, and the Beta quantiles with these exponents; universal meshes up to 5 (7) rails, trees up to 12 (24)", ["random phases"])
prop("H01", "Vector-unit sensitivity equals the true second derivative",
     "The error-sensitivity (Hessian) matrix of a vector unit programmed with any vector, balanced or linear, equals the matrix of second derivatives of the squared error of the generated vector with respect to the thetas and phis (in node order), analytically and by finite differences. "
     "It is symmetric and positive semidefinite, the gradient vanishes at the programmed phases, and the vector passed in is unchanged.",
     ["inputs", "configurations"], "all vectors over a small alphabet at small sizes x tree shapes x methods", "Tests compare the library with itself on random vectors.",
     [CI + "vector.py"], [("hessian_vector_unit and friends", CI + "vector.py")], ENUM, "second differences of a reference product, tolerance 2e-4", ["Hessian"])

SM = "simphox/mkl.py"
prop("S01", "The direct solver always solves the system it is given",
     "Whatever was solved, factorized, released, rejected or edited in place before in the process, every solve of a well-posed sparse system (any storage format, entry order, duplicate entries, real or complex, one or several right-hand sides) returns the solution of exactly that system in the shape of the right-hand side. "
     "The matrix and the right-hand side are not modified, malformed input and failed factorizations raise errors, and neither they nor other solver objects affect later solves.",
     ["histories"], "every window of 3 (4) operations out of 20 on the process-wide solver; every sequence of <=2 (3) operations on solver objects of each matrix type",
     "Unit tests solve once per matrix; the cached factorization only matters in sequences of calls.",
     [SM, "simphox/primitives.py"], [("PardisoSolver factorization cache, spsolve_pardiso", SM)],
     "exhaustive enumeration of operation histories (de Bruijn walks) on the real solver in lockstep with a dense reference", "all histories up to the depth; tolerance 1e-9", ["solutions, raised errors"])
prop("S02", "Solves in several threads do not disturb each other",
     "When several threads use the process-wide direct solver (solving different or equal systems, factorizing, releasing memory, or failing), every call returns what it returns alone, in every interleaving: "
     "no two native calls ever work on the same solver state at the same time, no factorization of one thread is used for the system of another, and no schedule deadlocks.",
     ["schedules"], "all schedules of two threads with <=2 preemptions for the core pairs (<=1 for the others), and of longer and three-thread programs with <=1",
     "Tests are single-threaded, and a race needs a particular interleaving.",
     [SM], [("solver shared by the process, its lock", SM)],
     "stateless model checking of the real code: preemption-bounded exhaustive enumeration of thread schedules under a controlled scheduler (line-level points, cooperative locks, overlap detection around native calls)",
     "all schedules within the preemption bound", ["solutions, overlap of native calls"])
prop("S03", "Differentiable solves have exact values and derivatives",
     "The differentiable sparse solve equals the dense solution for every sparsity pattern and entry order (duplicates included), and its reverse-mode derivatives by every matrix entry and by the right-hand side are exact for every cotangent, also when solves are nested, compiled, or interleaved with other systems. "
     "The transverse operator assembles backward derivative x diagonal x forward derivative entry by entry along either axis, for every grid, boundary phase and absorbing layer, with exact derivatives.",
     ["inputs", "histories"], "all patterns of 2x2 and a stride of (all) 3x3 matrices x entry orders x complete cotangent bases; all small grids x boundary conditions x complete Jacobians; call histories of length 3",
     "Tests check one random system; a wrong transpose, conjugate or cache shows for unsymmetric complex systems and sequences only.",
     ["simphox/primitives.py", SM], [("spsolve custom vjp, TMOperator", "simphox/primitives.py")],
     ENUM, "oracle: dense JAX linear algebra; tolerance 1e-8", ["solutions, cotangents"])

prop("S04", "The interval eigensolver finds every eigenvalue in its interval",
     "For every Hermitian (real: symmetric) sparse matrix in any storage format and entry order, every interval and every amount of room for eigenvectors, the interval eigensolver returns exactly the eigenvalues in the interval with orthonormal eigenvectors, from the first call of a process on; "
     "it raises an error instead when there is no eigenvalue, not enough room or a bad argument, never modifies the matrix, never corrupts memory (in any of the four precisions), and no call depends on the calls before it, failed ones included.",
     ["inputs", "histories"], "all Hermitian 2x2 and a stride of 3x3 matrices over small alphabets, structured matrices of up to 24 (40) rows x every interval between eigenvalues x room x precisions; call histories of length 2 (3)",
     "Tests solve no interval problem in single precision, and a failing first call or corrupted memory depends on the history of the process.",
     [SM], [("Feast, feast_eigs", SM)],
     ENUM, "oracle: dense eigenvalues (numpy); tolerance 1e-8 (single precision 1e-2)", ["eigenvalues, eigenvectors, raised errors, modified inputs, process death"])

FD = "simphox/fdfd.py"
GR = "simphox/grid.py"
UT = "simphox/utils.py"
prop("F01", "Frequency-domain fields solve the discretised Maxwell equations",
     "The 2D (both polarizations) and 3D frequency-domain operators are the documented discretised Maxwell operators for every permittivity (complex included), spacing, wavelength and absorbing layer, "
     "and the solved fields (the remaining components included) satisfy them for every source, with numpy, JAX and the iterative 3D solvers; electric and magnetic fields convert into each other consistently, and power flows outwards from every source, the same through every box around it when nothing absorbs. "
     "The JAX 2D solvers' derivatives by the permittivity are exact for every field component, with and without absorbing layers. A source of the wrong size is rejected, and a solver built from an existing grid keeps its permittivity, spacing and layers.",
     ["inputs", "configurations"], "all binary permittivities of small grids x every unit source x polarizations x solvers; layered grids x every unit source; complete Jacobians; sources in lossless patterns x nested boxes",
     "Tests compare one device with a stored field; a wrong boundary, transpose or permittivity average only shows on unsymmetric permittivities, anisotropic spacings or single pixels.",
     [FD, "simphox/primitives.py", GR], [("mat, mat_ez, mat_hz, solve, get_fields_fn, from_simgrid", FD)],
     ENUM, "oracle: operators assembled cell by cell (mc/refem.py) and dense solves; tolerance 1e-7; no Bloch phase (documented as missing)", ["operators", "solved fields", "derivatives"])
prop("F02", "Grid derivatives, curls, averages and absorbing layers are the Yee operators",
     "On every grid (1-3 dimensions, single-pixel axes, anisotropic spacing, any Bloch phase) the forward and backward derivative matrices are the documented finite differences with the Bloch phase at the boundary, and are minus the adjoint of each other; "
     "the curl operators and the difference and curl functions (numpy and JAX, with a propagation constant) agree with them, and the divergence of a curl is zero. "
     "Yee-averaged permittivities are the documented means. Absorbing layers stretch exactly the documented pixels, damp increasingly towards the edges, have the requested number of pixels for every spacing, and unusable layers are rejected.",
     ["inputs", "configurations"], "all grids of 1..4 pixels per axis x spacings x phases x complete bases of fields; all layer sizes on small grids",
     "Tests check a few shapes; wrap-around, phase, half-pixel and rounding mistakes depend on the axis, the pixel count and the spacing.",
     [GR, UT], [("YeeGrid.deriv, deriv_forward/backward, pml", GR), ("curl_fn, yee_avg, pml_sigma", UT)],
     ENUM, "oracle: cell-by-cell finite differences; tolerance 1e-10; functional differences without Bloch phase, as documented", ["derivative matrices", "curls", "layer sizes"])
prop("G01", "A simulation always answers for its current permittivity and ports",
     "After any sequence of edits (filling, painting regions, assigning or editing the permittivity array in place, adding components, moving ports, changing the mode solver's wavelength) and reads, "
     "averaged permittivities, operators, solved fields, port sources, port modes, measurements, JAX fields, time steps and mode libraries are those of a fresh simulation of the current permittivity and ports; "
     "what was computed before, or on another simulation, never shows.",
     ["histories"], "all sequences of <=2 (2D solver: 3) edits and reads on five kinds of simulation; every read is compared with a fresh object at the end of each",
     "Tests compute once per object; stale caches need an edit between two reads.",
     [FD, "simphox/fdtd.py", "simphox/mode.py", "simphox/sim.py", GR], [("cached operators, modes and averages", "simphox/sim.py port_modes, " + GR + " eps_t")],
     "explicit-state exploration of operation histories of the real objects against fresh objects", "the wavelength of a frequency-domain simulation is fixed at construction; tolerance 1e-6", ["fields", "modes", "measurements"])
prop("G02", "A region is the same set of pixels in every operation of a grid",
     "A region given by centre and size selects the same documented pixels in slices, masks, painting, mask functions and field views (numpy and JAX), for every grid, spacing and region, clipped at the grid edges; views turn the components and axes so that the third is normal to the region. "
     "Painting changes exactly those pixels and later edits win. Filling to a height changes exactly the layers below it, and a component is placed (mask, layers, ports, border, rib, substrate) exactly where it is asked for, also partly outside of the grid.",
     ["inputs", "configurations", "histories"], "all grids of 1..4 pixels per axis x every region on a quarter-pixel lattice x operations; pairs of edits; every fill height; every component placement",
     "Tests sample a few regions inside large grids; clipping, rounding and zero sizes appear only at edges and odd sizes.",
     [GR, UT], [("slice, mask, set_eps, mask_fn, view_fn, fill, add", GR)],
     ENUM, "regions halfway between two roundings are excluded; patterns are stand-ins (dphox is not installed)", ["permittivity", "masks", "views"])
prop("G03", "Boxes keep their geometry through every sequence of moves",
     "Moving and aligning boxes (by edges, centres, on top of or next to others) in any sequence keeps size and material, lands at the documented edges, never moves the other box, and the box covers exactly its pixels for every decimal spacing, cut off at the array's edges. "
     "Slice shifts clip and move as documented, and waveguide cross sections are painted from their boxes (core, substrate, rib, coupler gap, lateral and vertical perturbing blocks) exactly.",
     ["histories", "inputs"], "all sequences of <=2 moves out of 26; all small boxes x decimal spacings; all slice shifts; all small cross sections",
     "Tests check a few alignments; float rounding and sequences of moves are not sampled.",
     [UT, "simphox/typing.py", "simphox/mode.py"], [("Box", UT), ("block_design", "simphox/mode.py")],
     "explicit-state exploration of move sequences of the real boxes against an exact rational model", "cross sections whose boxes are centred halfway between pixels are excluded", ["box edges", "pixels", "permittivity"])
prop("T01", "Design transforms do exactly what they promise for every design",
     "Smoothing is the projected average over a disk of the given radius for every radius, steepness and threshold; symmetrised designs have every requested mirror symmetry, leave symmetric designs unchanged and keep the shape; "
     "masks keep exactly the pixels of the boxes free and fix all others to the initial design. Derivatives through each transform are exact, and inputs are not modified.",
     ["inputs", "configurations"], "all binary designs of 3x3 (strides of larger) x parameters; all symmetry flags; all boxes of a small grid; complete Jacobians",
     "Tests check one symmetric flag or design; combinations of flags and unsymmetric designs are not sampled.",
     ["simphox/transform.py"], [("get_smooth_fn, get_symmetry_fn, get_mask_fn", "simphox/transform.py")],
     ENUM, "diagonal symmetry with exactly one orthogonal mirror excluded; tolerance 1e-9", ["transformed designs", "derivatives"])

prop("M01", "Modes are the guided eigenmodes of the cross section, in order",
     "For every cross-section permittivity, spacing, wavelength and number of modes the mode solver returns exactly guided eigenpairs of the documented operator (1D and 2D), largest propagation constant first, normalised, and the requested number of them when there are as many; "
     "a guess (a number, or an interval for 1D cross sections) selects the eigenvalues nearest to it or inside it. A mode library reports electric and magnetic fields, flux, polarization ratio, effective index, propagation constant, phase and beat length "
     "of those modes consistently (also after the wavelength is updated), evolves them by their phases, and refuses indices out of range; a wavelength sweep equals solving at each wavelength.",
     ["inputs", "configurations"], "all binary 1D cross sections of 5..8 pixels, all of 3x3 and strides of larger ones x spacings x wavelengths x numbers of modes x guesses; every interval between eigenvalues; all sweeps of <=3 wavelengths",
     "Tests compare two waveguides; ordering, degenerate permittivities, guesses and wrong sections of the spectrum appear only on other cross sections.",
     ["simphox/mode.py"], [("ModeSolver.solve, ModeLibrary, dispersion_sweep", "simphox/mode.py")],
     ENUM, "reference: dense eigenvalues of the operator assembled cell by cell; multiplicities of degenerate eigenvalues, guesses that are an eigenvalue and 2D interval guesses are not claimed; tolerance 2e-6",
     ["propagation constants", "fields", "derived values"])
prop("M02", "Modes are measured, placed and cut out of a grid exactly",
     "Measuring a mode on fields is the documented flux overlap, linear in the fields, with its own field giving (1, 0) and its reversed field (0, 1), equal for numpy and JAX. "
     "Placing a mode in a 2D or 3D grid along any axis writes exactly its oriented field (in 3D the electric field) at exactly the given pixels, and viewing that region returns the mode; oriented profiles keep all components and are a wave along +x, -y or +z, with the relative signs of Maxwell's equations. "
     "The modes of a cross section of a simulation are those of exactly the permittivity cut out there.",
     ["inputs", "configurations"], "complete bases of fields on strides of binary 1D and 2D cross sections; every placement along every axis of small grids; every cut of small grids",
     "Tests measure one waveguide mode against itself; orientation and offsets on other axes are never tested.",
     ["simphox/mode.py", "simphox/sim.py", GR], [("ModeLibrary.measure_fn, place", "simphox/mode.py"), ("SimGrid.modes, SimCrossSection", "simphox/sim.py"), ("view_fn", GR)],
     ENUM, "tolerance 1e-7", ["measurements", "placed fields", "profiles"])
prop("P01", "S-parameters and port sources do not depend on how ports are named or given",
     "Every documented way of giving ports and modes (a name, a pair, a list, a weighted dictionary) means the same excitation for sources and measurements, in the order given and for every port name. Port sources are the weighted sum of the ports' oriented modes (in 3D their transverse electric fields), shifted along the port's axis or unidirectional as documented; "
     "port measurements report the waves entering and leaving the device for ports at the left, right, bottom and top, in rows aligned with the ports asked for. S-parameters, their decorated arrays and fidelities follow; they are the same for the transposed device, "
     "and a straight waveguide in 2D or 3D transmits each mode of either polarisation into the same mode of its other port in every direction, with that port's profile in every component. A component model from FDFD holds, for each wavelength, input and output port asked for, under those labels, what a simulation at that wavelength gives.",
     ["inputs", "configurations"], "all excitations of <=3 port/mode pairs x formats; measurement lists of <=2 (thorough 3) of 8 pairs x namings x profile sizes x wavelengths x polarizations x numpy/JAX; all sources of <=2 weighted pairs; transposed 2D and 3D devices on square and oblong grids; 2D and 3D guides in 4 directions; component models for all lists of input and output ports",
     "Tests use one port order and x-oriented ports; permuted names, y ports, dictionaries and several modes per port are not sampled.",
     ["simphox/sim.py", "simphox/parse.py", FD, UT], [("port_source, get_measure_fn, get_sim_sparams_fn, decorate", "simphox/sim.py"), ("parse_excitation, parse_source_port", "simphox/parse.py")],
     ENUM, "string port labels; straight guides: amplitudes of 0.85 to 1.1 count as full transmission; everything else 1e-7", ["sources", "measurements", "s-parameters"])
prop("D01", "Time-domain steps follow Maxwell's equations with absorbing layers and sources",
     "Each time step is the leapfrog update of Maxwell's equations on the averaged permittivity at the Courant time step, with the documented convolutional absorbing layers on every side of every axis, for 1D, 2D and 3D grids, numpy and JAX alike. Sources enter exactly in their region (slices, indices or masks) and add up; "
     "a step changes neither its arguments nor anything outside of its result and uses the current permittivity. Energy is conserved without layers and no state grows; waves that reach the layers do not come back. "
     "A run with a harmonic port source applies the port's modes in the chosen polarization and the phase of each step, starts from the given state and returns the measurement of the time-synchronised fields before the first and after every step, for the ports asked for, "
     "the mode sent in at one end of a straight waveguide leaves at the other end as that mode, for both polarizations, in 3D and in every direction; and live views show each interval's permittivity, field and power.",
     ["inputs", "histories", "configurations"], "complete bases of field impulses over 6 steps on 12 grids (3D with layers: a lattice of impulses), all source regions of small grids, all histories of 4 steps/sources/edits on two interleaved simulations, all port source and measurement options",
     "The time-domain simulator has no tests at all; updates are linear in the state, so a complete basis of impulses decides every state.",
     ["simphox/fdtd.py", UT, GR], [("step, run_cw_port, zero_state", "simphox/fdtd.py"), ("curl_pml_fn, pml_sigma", UT)],
     "explicit-state exploration: complete impulse bases and step/source/edit histories of the real simulator against a reference transition system", "real positive permittivity, periodic outer boundary; reflections below 2 percent for the layers explored; tolerance 1e-9",
     ["fields after every step", "measurements", "views"])

prop("O01", "An optimization run follows Adam on its objective and records what happened",
     "For any list of problems (with and without simulations, sources, transforms and metrics, sharing simulations or names) a run minimises the average objective of the transformed parameters by Adam steps of the given size from the given parameters (the permittivity if none are given), without changing them: "
     "costs are the objective before each step, final parameters and the simulations' permittivity those after the last step. "
     "Permittivity, field and metric records belong to the right problem and exactly the iterations of their interval, and progress and live views show the values of their iteration.",
     ["inputs", "histories"], "all lists of <=2 (thorough 3) problems out of 9 kinds x run lengths, step sizes, record intervals, metrics, progress bars and live views",
     "The optimizer has no tests; lists of problems, intervals that do not divide the run and missing parts are never exercised.",
     ["simphox/opt.py", "simphox/sim.py"], [("opt_run, OptProblem, OptRecord", "simphox/opt.py")],
     ENUM, "2D simulations; live views need distinct simulation names; costs to 1e-6, parameters and records to 1e-5", ["costs", "parameters", "permittivity", "records"])

prop("V01", "Plots show exactly the values asked for, at their place",
     "Plots of fields, powers, permittivities and modes draw every pixel's value at that pixel's position, whatever the shape, values, spacing and options: axes span the size of the structure, the permittivity appears under the field at the same place, "
     "field colours are centred at zero and reach the largest magnitude (or the given range), and arrays passed in are not modified. "
     "A mode plot shows the requested component of the requested mode's electric or magnetic field (or the magnitude of its power flux) for 1D and 2D cross sections, labelled with that component, the mode's effective index and polarization, and refuses components or modes that do not exist.",
     ["inputs", "configurations"], "all small fields over an alphabet of signs and zeros x spacings x overlays x ranges; every mode, component and option of mode libraries of a stride of all small binary cross sections",
     "Nothing is tested about plots; transposed or mirrored images, mislabelled components and degenerate fields are only visible pixel by pixel.",
     ["simphox/viz.py", "simphox/mode.py"], [("plot_field_2d, plot_power_2d, plot_eps_2d, plot_field_1d, plot_eps_1d", "simphox/viz.py"), ("ModeLibrary.plot_field, plot_power", "simphox/mode.py")],
     ENUM, "matplotlib only (holoviews and k3d are not installed); equal spacing along both axes", ["values drawn at every pixel", "labels"])

prop("K01", "The matrix optimizer is Adam on a true fidelity error, for every circuit",
     "The normalized error between a target and any nonzero matrix (unitary or not) is the root of one minus the normalised overlap: in [0, 1], never NaN, zero exactly for matrices equal up to a complex factor, the same with numpy and JAX and with finite, exact derivatives. "
     "A matrix optimizer made from a circuit (any wiring, phase style, coupler errors and losses, compiled or not) starts at the circuit's or the given phases, reports that error before each step, moves every phase by Adam with the given step size, "
     "and modifies neither the circuit, nor the target, nor the states it returned before.",
     ["inputs", "configurations"], "all pairs of small unitaries reached by gate words, scaled, lossy and singular matrices; all circuits of <=2 nodes and named architectures x styles x errors x losses x targets x step sizes x starts",
     "Neither the error nor the optimizer is tested; rounding at perfect matches, lossy circuits and phase-style dependent gradients are not exercised anywhere.",
     [CI + "forward.py", UT], [("matrix_opt", CI + "forward.py"), ("normalized_error", UT)],
     ENUM, "gradients below 1e-3 are not compared (rounding of the single-precision default input decides Adam's direction there); steps to 0.3 percent of the step size", ["costs", "parameters after each step"])

# <MORE>

claimed = {f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f[:-3] and f[0] != "_" and f.endswith(".py")}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
           checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                        technique="model checking: " + t, level="model_checking", level_note=n)
                   for p, t, n in P if p["id"] in claimed],
           not_applicable=[dict(property=p["id"], reason="not claimed yet: its check is under construction") for p, _, _ in P if p["id"] not in claimed],
           notes="Checks import the code from /repo's working tree (pure Python; no build, no hooks). tools/gen.py writes this file.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(sorted(claimed), [p["id"] for p, _, _ in P if p["id"] not in claimed])
