GME, PWE, ESE, POL = ALLF
UNIT = "The 13 stable tests sample a few structures, one run per object and one option set each."

prop("P01", "Results never depend on earlier runs or other objects",
     "What a solver reports after a run is determined by the structure, the constructor arguments and the arguments of that run alone. Earlier runs of the same solver, other solver objects, previously queried fields and process-wide state left by them have no influence on it.",
     ["histories", "configurations"],
     "every sequence of runs and queries on one or several solver objects, in every option configuration",
     "A test performs one run per object; the property is over all histories, and a stale cache shows only for a second run with different inputs.",
     ALLF, [("per-run caches and state", "GuidedModeExp.run, PlaneWaveExp.run, ExcitonSchroedEq.run, HopfieldPol.run"),
            ("lazily created state", "run_im, compute_eps_inv, _init_reciprocal_*")],
     "interprocedural backward slicing on an SSA value graph with heap",
     "Dependence over-approximated for all values, paths, loop counts; sound up to the listed engine assumptions; option space partitioned into enumerated configurations.")

prop("P02", "Caller-owned data is never modified",
     "Arrays, lists, dictionaries, shapes, layers and lattices that a caller passes to the library are left exactly as they were, including option dictionaries and k-point arrays. Default argument values and module-level tables are not modified either.",
     ["inputs", "histories"],
     "every public call with any caller-supplied container or structure, on every path",
     UNIT + " None compares its inputs after the call.",
     ALLF + ["legume/phc/phc.py", "legume/phc/shapes.py", "legume/utils.py", "legume/minimize.py", "legume/viz.py"],
     [("in-place array updates", "gme.py, matrix_elements.py, slab_modes.py, shapes.py"),
      ("option dictionaries", "HopfieldPol.run")],
     "alias and side-effect analysis on an abstract heap",
     "Every store/mutation of library code classified by the owner of the object it reaches; all paths, all values.")

prop("P03", "Supported requests never fail with a name, attribute or call error",
     "For every supported combination of options, lattice, shape, solver and accessor, no path reaches a read of an undefined name or missing attribute, an unassigned local, or a call whose arguments do not match the callee. This includes code reached only through rarely used options, plotting and export.",
     ["configurations", "inputs"],
     "every path of every public entry point in the supported configurations",
     "13 tests execute a small part of the branches; a fault in an untested branch is invisible to them.",
     ALLF + ["legume/viz.py", "legume/gds.py", "legume/minimize.py", "legume/primitives.py", "legume/phc/shapes.py", "legume/phc/lattice.py"],
     [("option branches", "run() of each solver"), ("accessors", "freqs, eigvecs, get_field_*, ft_field_xy, get_eps_xy")],
     "definite-assignment and attribute typestate analysis, scope resolution",
     "All paths of all enumerated configurations plus lexical resolution of every function in the package.")

prop("P04", "The numpy and the autograd backend compute the same results",
     "Switching the backend never changes what is computed: every result of every solver is the same function of its inputs under the plain and under the differentiable backend. Only the availability of gradients differs.",
     ["configurations", "inputs"],
     "every solver, option configuration, shape and input",
     "The gradient tests run one rectangle-lattice structure with one option set; the forward values of the two backends are never compared in general.",
     ["legume/backend.py", "legume/primitives.py"] + ALLF,
     [("backend function tables", "NumpyBackend, AutogradBackend"), ("primitives", "legume/primitives.py")],
     "bisimulation of value graphs (translation-validation style)",
     "Result graphs of the two backends proven equal operator by operator, for all inputs, for each enumerated configuration.")

prop("P06", "Verbosity only affects printing; silent runs print nothing",
     "With verbosity switched off no solver writes to the console, whatever the options and the print backend. The verbosity flag never influences a computed result.",
     ["configurations", "inputs"],
     "every solver run in every option configuration, on every path",
     "No test captures output or compares verbose with silent results.",
     ALLF + ["legume/print_backend.py", "legume/print_utils.py"],
     [("progress and timing output", "legume/print_utils.py"), ("verbose guards", "run() of each solver")],
     "effect analysis and dependence slicing",
     "Every console effect enumerated with its path condition; slices of all results checked not to contain the flag.")

prop("P07", "Unsupported requests are rejected with an explicit error",
     "A request outside the documented option set (unknown option value, impossible option combination, index or label out of range, inconsistent array shapes) raises an explicit error and never silently computes something else. Documented requests are accepted.",
     ["configurations", "inputs"],
     "every documented option of every public entry point",
     "Only valid requests are tested.",
     ALLF + ["legume/phc/phc.py", "legume/phc/lattice.py", "legume/gme/slab_modes.py", "legume/viz.py", "legume/backend.py"],
     [("option validation", "run() of each solver"), ("structure validation", "PhotCryst.add_shape/add_layer, Lattice")],
     "reachability / must-raise analysis over the option space",
     "End of program proven unreachable for each bad request, explicit raise present; numeric guards located by their path condition.")

prop("P08", "Every documented input influences the results it is documented to",
     "Each geometric, material and numerical parameter takes part in the computation of every result it is documented to influence, in every configuration. No parameter is silently ignored or replaced by a default.",
     ["inputs", "configurations"],
     "every (parameter, result) pair in every enumerated configuration",
     "Tests fix the parameters; a parameter ignored in an untested configuration goes unnoticed.",
     ALLF + ["legume/phc/shapes.py", "legume/phc/phc.py", "legume/gme/slab_modes.py", "legume/minimize.py"],
     [("parameter plumbing", "run() of each solver, Shape.compute_ft, GuidedModeExp._ind_modes")],
     "may-dependence analysis (absence from an over-approximated slice)",
     "Absence from the slice proves the input is ignored; presence proves only a possible dependence.")

prop("P05", "Gradients flow to every structural parameter",
     "With the differentiable backend, the eigenfrequencies, losses and radiative couplings remain differentiable functions of every shape, layer and cladding parameter, for every shape, truncation, solver and symmetry option that is documented to support gradients. No parameter is silently treated as a constant.",
     ["configurations", "inputs"],
     "every (differentiable result, structural parameter) pair in every enumerated configuration",
     "The gradient test that passes reliably differentiates one structure with respect to one radius; a detached copy silently gives a zero contribution and is invisible to forward tests.",
     ALLF + ["legume/backend.py", "legume/primitives.py", "legume/phc/shapes.py", "legume/gme/slab_modes.py"],
     [("custom derivatives", "legume/primitives.py"), ("value extraction", "get_value in gme.py, slab_modes.py, utils.py")],
     "differentiability dataflow on the value graph",
     "Every path of every enumerated configuration; the values of the registered vector-Jacobian products are trusted.")

prop("P09", "Maxwell scale invariance of every result",
     "Results obey the scaling laws of Maxwell's equations: measuring all lengths in another unit, or multiplying all permittivities by a common factor, rescales frequencies, losses, fields and couplings exactly as prescribed and changes nothing else. This holds for every structure, solver and option.",
     ["inputs", "configurations"],
     "every structure, k point, option set and scale factor",
     "The tests fix the scale; a formula with a wrong power of a length, frequency or permittivity agrees with itself at the tested scale.",
     ALLF + ["legume/gme/matrix_elements.py", "legume/gme/slab_modes.py", "legume/phc/shapes.py", "legume/phc/phc.py", "legume/phc/lattice.py"],
     [("matrix elements", "gme/matrix_elements.py"), ("slab modes and normalization", "gme/slab_modes.py"),
      ("fields and losses", "GuidedModeExp.ft_field_xy, _compute_rad_components"), ("shape transforms", "phc/shapes.py")],
     "dimension (unit) inference over the value graph",
     "The linear equations over dimension exponents hold for all inputs and paths; dimensionless factors are outside what units can decide.")

prop("P19", "Equal inputs give equal results in every process",
     "Two runs with equal inputs return the same results in any process, at any time and in any environment. The library neither draws from nor reseeds the process-wide random state.",
     ["histories", "configurations"],
     "every solver result in every option configuration, any state of the process-wide generators, clock and environment",
     "Tests never compare two processes.",
     ALLF + ["legume/primitives.py", "legume/minimize.py", "legume/utils.py"],
     [("solver runs", "run() of each solver"), ("eigensolver gradients", "legume/primitives.py")],
     "source-of-nondeterminism reachability in backward slices",
     "Slices over-approximate all paths; the ARPACK start vector is assumed to affect rounding only.")

na("N01", "Eigenfrequencies agree with independent reference solutions",
   "Computed band energies, losses and polariton energies agree with those of independent solvers or published values to the accuracy documented for the truncation used.",
   ["inputs"], "all structures", "A few reference numbers are compared for a few structures.",
   ALLF, [("solvers", "run() of each solver")],
   "Numerical agreement with a reference is a statement about floating-point values of eigensolvers; no static argument bounds it. The structural clauses (operator formulas, unit conventions, symmetry, indexing) are claimed separately.")
na("N02", "Results converge as the plane-wave cutoff and mode set grow",
   "Increasing the reciprocal-lattice cutoff or the number of guided modes makes the results converge to a limit.",
   ["inputs"], "all structures and cutoffs", "Tests use one cutoff.", ALLF,
   [("truncation", "_init_reciprocal_abs, _init_reciprocal_tbt")],
   "Convergence is an analytical statement about limits of numerical results, not about the shape of the code.")
na("N03", "Reported gradients equal finite-difference gradients",
   "Gradients obtained through the differentiable backend equal the numerical derivative of the forward computation up to discretisation error.",
   ["inputs"], "all parameters and structures", "One structure is compared.", ["legume/primitives.py", "legume/backend.py"],
   [("vector-Jacobian products", "legume/primitives.py")],
   "Numerical equality of derivatives quantifies over floating-point values; the structural clauses are claimed separately: P05 (gradient flow is not detached) and P20 (each derivative rule supplied by the package is the exact adjoint of its operation).")
na("N04", "All guided modes of the effective slab are found",
   "The slab solver finds every guided mode in the requested range, none missed and none repeated, for every permittivity profile.",
   ["inputs"], "all slabs and frequency ranges", "One slab is tested.", ["legume/gme/slab_modes.py"],
   [("bracketing and root search", "guided_modes, guided_mode_given_g")],
   "Completeness depends on the sampling step relative to the spacing of the roots of a transcendental function: a runtime quantity no static argument bounds. The dispersion function itself is a claimed clause.")

prop("P10", "Modes of the effective slab solve Maxwell's equations and are normalised",
     "For any slab of homogeneous layers, every reported guided mode satisfies the dispersion relation and the interface conditions of both polarizations and carries unit norm. Radiative states satisfy the same interface conditions with exactly one normalised outgoing wave, in the requested cladding.",
     ["inputs", "configurations"],
     "all permittivities, thicknesses, wave vectors and frequencies; evanescent and propagating layers; both polarizations and claddings; 1 to 4 inner layers",
     "The tests compare a few mode frequencies of one slab; coefficients, norms and radiative states are never compared, and multi-layer slabs are not exercised.",
     ["legume/gme/slab_modes.py"],
     [("dispersion function", "D22, D22s_vec, T_S_matrices"), ("coefficients", "AB_matrices, normalization_coeff"),
      ("composition", "guided_mode_given_g"), ("radiative states", "rad_modes")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms holds for all real inputs; the number of layers and their kinds are enumerated; forms too large to expand are compared by random interpretation (error probability negligible).")

prop("P18", "Shape Fourier transforms and indicators describe the documented region",
     "The Fourier transform of each shape is the exact transform of the region its constructor describes, at every reciprocal vector including zero and the degenerate directions, and after any rotation. The inside test of a shape, its area and its transform all describe the same region.",
     ["inputs"],
     "all shape parameters and all reciprocal vectors in the three regimes generic, one component zero, zero",
     "A disc, a square and a polygon are evaluated at a few vectors; degenerate directions, rotations and ellipses are not.",
     ["legume/phc/shapes.py"],
     [("transforms", "Circle, Ellipse, Poly compute_ft"), ("inside tests", "is_inside"), ("vertices", "Square, Hexagon, Poly rotate")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms of the transform and the analytic transform holds for all parameter values; polygons with 3, 4 and 6 vertices are enumerated.")

prop("P11", "Guided-mode frequencies come from the weak form of Maxwell's equations",
     "The matrix a guided-mode expansion diagonalises contains, for every pair of basis modes, the overlap of their curls weighted with the inverse permittivity of every layer, Hermitian and with every block in its place. The reported frequencies are the square roots, over two pi, of its eigenvalues for the reported eigenvectors, in ascending order and nearest to the requested target.",
     ["inputs", "configurations"],
     "all permittivities, thicknesses, inverse-permittivity matrices, mode profiles and reciprocal vectors; all four polarization pairs; mixed and missing mode orders; both eigensolvers",
     "The tests compare frequencies of a few one-layer structures; structures with several layers, complex permittivity matrices, the sparse solver and mixed mode orders are not compared with anything.",
     ["legume/gme/matrix_elements.py", "legume/gme/gme.py"],
     [("matrix elements", "mat_te_te, mat_tm_tm, mat_te_tm, mat_tm_te"), ("assembly", "GuidedModeExp._construct_mat"),
      ("eigenproblem", "GuidedModeExp.run")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms holds for all real and complex inputs; layer counts, index sets and mode orders are enumerated.")

prop("P12", "Reported fields are the Maxwell fields of the reported modes",
     "The magnetic, displacement and electric field coefficients reported at a height are those of one and the same solution of Maxwell's equations: the superposition of basis modes with the eigenvector as weights, its curl over the frequency, and the displacement field multiplied by the inverse permittivity of the layer at that height.",
     ["inputs", "configurations"],
     "all structures, eigenvectors, mode indices and heights in every cladding and layer; both expansions and polarizations",
     "No stable test evaluates a field.",
     ["legume/gme/gme.py", "legume/pwe/pwe.py"],
     [("guided-mode fields", "GuidedModeExp.ft_field_xy"), ("plane-wave fields", "PlaneWaveExp.ft_field_xy")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms holds for all inputs; layers, index sets and mode orders are enumerated.")

prop("P13", "Plane-wave and exciton eigenproblems are built from structure transforms",
     "Every element of the permittivity or potential matrix of an expansion is the Fourier transform of the layer at the difference of the two reciprocal vectors of that row and column, in either truncation and for any lattice. Plane-wave and exciton frequencies are those of the documented operators built from that matrix, for the reported eigenvectors and in ascending order.",
     ["inputs", "configurations"],
     "all layer transforms, k points and masses; reciprocal sets of both truncations for square, hexagonal and oblique lattices and symbolic bases; homogeneous layers; both polarizations",
     "The tests compare single frequencies of one square-lattice plane-wave run; matrices of oblique lattices, circular truncation with non-symmetric transforms and exciton runs are compared with nothing.",
     ["legume/pwe/pwe.py", "legume/exc/exc.py", "legume/gme/gme.py", "legume/phc/phc.py", "legume/primitives.py"],
     [("permittivity matrices", "PlaneWaveExp._compute_eps_inv, GuidedModeExp.compute_eps_inv, ExcitonSchroedEq._compute_matrix"),
      ("eigenproblems", "PlaneWaveExp.run, ExcitonSchroedEq.run"), ("layer transform", "ShapesLayer.compute_ft, compute_exc_ft")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms holds for all transforms and k points; reciprocal sets are enumerated (three lattices, both truncations, plus symbolic bases).")

prop("P16", "Parity sectors are mirror eigenspaces of the Hamiltonian",
     "When modes are separated by parity, every returned mode is an eigenstate of the full Hamiltonian inside the subspace of fields that are even (or odd) under the reflection in the vertical plane through the in-plane wave vector, expressed in the original basis, and its parity label is the sign it picks up. With both parities requested, frequencies, labels and eigenvectors of the two sectors are merged in one ascending order nearest to the target. Directions which are not mirror planes of the lattice, and Hamiltonians that do not commute with the reflection, are refused.",
     ["inputs", "configurations"],
     "all Hamiltonians, bases of up to 12 plane-wave modes on square, rectangular and hexagonal lattices, all high-symmetry directions, dense and sparse storage, each parity option",
     "The stable tests do not separate modes by parity.",
     ["legume/gme/gme.py"],
     [("reflection", "GuidedModeExp._calculate_refl_mat, _construct_sym_mat"),
      ("separation", "GuidedModeExp._separate_hamiltonian_dense, _separate_hamiltonian_sparse"),
      ("merge", "GuidedModeExp.run")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all Hamiltonians; reciprocal sets, directions and mode orders are enumerated.")

prop("P17", "Real-space maps are Fourier sums over the structure's reciprocal vectors",
     "A field, wave function, permittivity or potential map returned by any solver equals, at every point of the returned grid, the sum over all reciprocal vectors, each counted once, of its Fourier coefficient times the plane wave at that point. Grids passed by the caller are used and returned unchanged; default grids span the documented cell; permittivity and potential maps are those of the layer at the requested height.",
     ["inputs", "configurations"],
     "all coefficients, grids, heights and component selections; literal reciprocal sets of both truncations for three lattices",
     "The stable tests never evaluate a real-space map.",
     ["legume/utils.py", "legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py"],
     [("inverse transform", "ftinv"), ("fields", "get_field_xy, get_field_xz, get_field_yz"),
      ("maps", "get_eps_xy, get_pot_xy, get_wavef_xy")],
     "value numbering modulo field axioms (exact normal forms)",
     "Equality of normal forms holds for all coefficients and grids; reciprocal sets, grid sizes and component strings are enumerated.")

prop("P24", "Lattices, Brillouin-zone paths and plane-wave sets match their definitions",
     "Reciprocal vectors are dual to the primitive vectors, areas and special points follow from them, and a path visits the requested points with the requested spacing, indices, normalised lengths, angles and labels. Each expansion uses exactly the reciprocal lattice vectors inside the documented region, a parallelogram or a circle of radius two pi gmax, each once, for every lattice shape.",
     ["inputs", "configurations"],
     "all primitive vectors and path points; literal cutoffs, ties included, for six lattices from square to strongly oblique; both truncations and three solvers",
     "Tests use square and hexagonal cells at one cutoff; oblique cells, ties, paths with given points and forced symmetry of the zone centre are not tested.",
     ["legume/phc/lattice.py", "legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py"],
     [("lattice", "Lattice.__init__, xy_grid"), ("paths", "Lattice.bz_path, _parse_point"),
      ("reciprocal sets", "_init_reciprocal_tbt, _init_reciprocal_abs, _init_reciprocal")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all primitive vectors and points; sets are folded exactly for enumerated lattices and cutoffs.")

prop("P15", "Physical constants and energy conversion have their CODATA values",
     "Every physical constant the package exposes (charge, electron mass, vacuum permittivity, speed of light, Planck constants in J s and eV/Hz) has its CODATA value in the documented unit, and the constants agree with each other through the identities that tie them. Converting a dimensionless frequency with a lattice constant in metres gives the photon energy h c f / a in electronvolts.",
     ["inputs"],
     "all exposed constants, five identities between them, all lattice constants",
     "No stable test looks at a constant or at an energy in electronvolts.",
     ["legume/constants.py", "legume/utils.py"],
     [("constants", "module legume.constants"), ("conversion", "from_freq_to_e")],
     "constant folding and value numbering",
     "The factor of the conversion is derived for a symbolic lattice constant.")

prop("P20", "Derivative rules are the exact adjoints of their operations",
     "With the autograd backend, the gradient that flows back through every operation for which the package supplies its own derivative rule (Toeplitz-block matrices, eigenvalues and eigenvectors of dense, sparse and general matrices, inverses, square roots, interpolation tables, array extension, sparse products, roots of the mode equations) is the exact first-order change of the result. This holds for complex arguments and for every incoming gradient.",
     ["inputs"],
     "all argument values, perturbations and incoming gradients; matrix sizes 2 to 9, up to three Toeplitz blocks",
     "The stable tests check gradients of two objectives with respect to real parameters only.",
     ["legume/primitives.py", "legume/utils.py", "legume/backend.py"],
     [("rules", "vjp makers registered in legume/primitives.py"), ("operations", "toeplitz_block, extend, fsolve")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all non-degenerate arguments; extents are enumerated. The rules of the autograd library itself are trusted.")

prop("P22", "Optimisers follow their documented steps and report what they did",
     "An ADAM run evaluates the objective exactly once per epoch, at points that follow the documented moment recurrences from the start parameters and are snapped to the bounds after every step; an L-BFGS run hands objective value, gradient, bounds and limits unchanged to SciPy. The returned history lists the objective at the parameters of each epoch, callbacks see the state of their own epoch, extra arguments (and the optimiser, when asked for) reach every evaluation, and a second run of the same optimiser starts afresh.",
     ["inputs", "histories", "configurations"],
     "all objectives, gradients, start points and step parameters of two parameters; one to three epochs, no bounds, common and individual bounds, repeated runs",
     "The stable tests never run an optimiser.",
     ["legume/minimize.py"],
     [("adam", "Minimize.adam, _step_adam"), ("lbfgs", "Minimize.lbfgs"), ("bounds", "Minimize._parse_bounds")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all values; numbers of parameters and epochs are enumerated.")

prop("P23", "Every position belongs to exactly one layer of the stack",
     "Layers are stacked without gaps from zero in the order added, and every height belongs to exactly one layer or cladding. The permittivity at a position is that of the last added shape of that layer covering it, counting every periodic copy, else the background; bounds, averages and the slab thicknesses and permittivities solved for are those of the same stack. Quantum wells sit in the layer that contains them.",
     ["inputs", "configurations"],
     "all thicknesses, permittivities, areas and positions in each layer of stacks of one to three layers; all permittivity modes; periodic copies at enumerated points of three lattices",
     "The tests use one-layer structures and never evaluate a permittivity in real space.",
     ["legume/phc/phc.py", "legume/phc/layer.py", "legume/utils.py", "legume/gme/gme.py", "legume/exc/exc.py"],
     [("stack", "PhotCryst.add_layer, add_shape, add_qw, z_grid"), ("position to layer", "z_to_lind"),
      ("permittivity", "PhotCryst.get_eps, get_eps_bounds, ShapesLayer.get_eps"), ("slab parameters", "GuidedModeExp.run")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all thicknesses and permittivities; layer counts, evaluation orders and coverage points are enumerated.")

prop("P14", "Radiative losses follow Fermi's golden rule channel by channel",
     "For every mode, the diffraction orders reported in a cladding are exactly those inside its light cone, and the coupling to each polarisation is the overlap of the mode with the radiative state of that cladding, polarisation and order times the root of the density of states. Imaginary frequencies follow from the summed squared couplings in the same units as the real ones, the polarisation unbalance from their split, and every array is ordered by k point and mode.",
     ["inputs", "configurations"],
     "all guided and radiative modes, eigenvectors, permittivities and thicknesses; literal k points and frequencies with zero, one or two open orders per cladding; mixed mode orders",
     "The tests compare imaginary frequencies of one structure; couplings, channel labels, asymmetric claddings and the unbalance are not tested.",
     ["legume/gme/gme.py", "legume/gme/matrix_elements.py", "legume/gme/slab_modes.py"],
     [("couplings and losses", "GuidedModeExp._compute_rad_components"), ("collection", "GuidedModeExp.run_im, compute_rad, compute_rad_sp"),
      ("radiative states", "GuidedModeExp._get_rad, rad_modes")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all modes, eigenvectors and permittivities of the layers; open orders, layer counts and mode orders are enumerated.")

prop("P25", "Figures show the stored results",
     "Every plotting function draws exactly the results stored in the object it is given: each band, loss, polariton, exciton or coupling diagram shows every stored point once at its wave vector and energy, coloured by its own value, and the shaded light cone is bounded by the light line of the densest cladding. Maps of permittivity, fields and potentials show the evaluated values over the extents of the grid they were evaluated on, at the requested component, plane and mode, with the sign or phase convention of the requested value. Outlines of shapes are the boundaries of those shapes.",
     ["inputs", "configurations"],
     "all stored frequencies, losses, energies, wave vectors, grids, permittivities, field values, shape parameters and plotting options; numbers of points enumerated",
     "No stable test looks at a figure.",
     ["legume/viz.py", "legume/phc/shapes.py", "legume/utils.py"],
     [("diagrams", "viz.bands, viz.pol_bands"), ("maps", "viz.eps, viz.eps_xz, viz.eps_xy, viz.eps_yz, viz.eps_ft, viz.pot_ft, viz.field, viz.wavef"),
      ("outlines", "viz.shapes, viz.structure, viz.reciprocal")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms of everything handed to the axes hold for all stored values; numbers of wave vectors, modes and grid points are enumerated.")
prop("P26", "Polaritons are eigenpairs of the documented Hopfield matrix",
     "For every in-plane momentum the polariton energies and losses are the eigenvalues of the generalised Hopfield matrix whose blocks are the photonic and excitonic complex energies and the light-matter couplings of the overlaps between the quasi-guided field and the exciton envelope of each quantum well. Energies do not depend on the phases of the photonic or excitonic eigenvectors. Stored eigenvectors belong to the stored energies, and the photonic and excitonic fractions of a state are the weights of that same state and sum to one.",
     ["inputs", "configurations"],
     "all photonic and excitonic energies, losses, oscillator strengths, positions, field and envelope coefficients; one to two quantum wells, one to two states per solver",
     "No stable test runs the polariton solver.",
     ["legume/pol/pol.py", "legume/constants.py", "legume/utils.py"],
     [("matrix", "HopfieldPol._construct_Hopfield, _calculate_C_D"), ("eigenpairs", "HopfieldPol.run"),
      ("fractions", "HopfieldPol._calculate_fraction")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms hold for all photonic and excitonic data; numbers of wells and states are enumerated.")
prop("P27", "Exported GDS layouts contain exactly the shapes of the structure",
     "A GDS layout exported from a photonic crystal contains exactly one element for every shape of every patterned layer, with the outline, position and rotation of that shape, on the GDS layer of its index in the stack, and nothing left over from an earlier export. A layout traced from a raster contains every contour of the requested levels mapped onto the unit cell, and the cell boundary exactly when it is asked for. Units, tolerance and file name are the requested ones.",
     ["inputs", "configurations"],
     "all shape parameters, lattice vectors, units, tolerances and file names; symbolic raster contours; numbers of layers, shapes and contour points enumerated",
     "No stable test exports a layout.",
     ["legume/gds.py", "legume/phc/shapes.py"],
     [("shapes", "gds.generate_gds"), ("raster", "gds.generate_gds_raster")],
     "value numbering modulo field axioms (exact normal forms)",
     "Normal forms of every exported element hold for all geometry; numbers of layers and shapes are enumerated.")
