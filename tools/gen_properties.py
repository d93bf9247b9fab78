#!/usr/bin/env python3
"""Single source for properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

OP = "c++/triqs/operators/many_body_operator.hpp"
HS = "c++/triqs/hilbert_space/"
MC = "c++/triqs/mc_tools/"
UT = "c++/triqs/utility/"
ST = "c++/triqs/stat/"
ME = "c++/triqs/mesh/"
LA = "c++/triqs/lattice/"
PY = "python/triqs/"

# ---------------------------------------------------------------- many-body core
prop("C01", "Second-quantised operator algebra is canonical and exact",
 "Products and sums of creation/annihilation operators are stored in one canonical normal-ordered form without zero terms, so two operator expressions that are equal as fermionic operators (canonical anticommutation relations, associativity, distributivity, commuting scalars) are equal as objects. The Hermitian conjugate is an antilinear involution that reverses products, and the real/imaginary parts recombine to the operator.",
 ["inputs"], "all operator words up to the bounded length over arbitrary flavour indices, all coefficients",
 "A test multiplies a handful of fixed words; sign and cancellation errors depend on the relative order and coincidence of indices.",
 [OP, "c++/triqs/operators/many_body_operator.cpp"], [("normalize_and_insert", OP), ("operator*=, dagger, real, imag", OP)])
prop("C02", "Operators act on Fock states with exact Jordan-Wigner signs",
 "Applying a many-body operator to a state gives, for every Fock state of up to 64 modes, exactly the amplitudes defined by the ordered fermionic algebra (occupied/empty blocking and the parity of the occupied modes passed). Acting with a product of operators equals acting with the factors one after the other.",
 ["inputs"], "every 64-bit Fock state, every choice of mode indices of a monomial up to the bounded length, every coefficient",
 "Tests use at most a few modes; sign errors that need many occupied modes or high mode indices never occur there.",
 [HS+"imperative_operator.hpp", HS+"fundamental_operator_set.hpp"], [("masks and parity_number_of_bits", HS+"imperative_operator.hpp")])
prop("C03", "Fock-state bookkeeping is a bijection",
 "For every set of fundamental operators the position of each index is a bijection onto 0..n-1 in order of insertion, the full Hilbert space maps index<->Fock state one to one, and a sub-Hilbert space returns, for each stored Fock state, exactly the index under which it was stored. Membership answers agree with what was inserted.",
 ["inputs","histories"], "all insertion orders/sets up to the bound, arbitrary 64-bit Fock states",
 "Unit tests build one or two small spaces in sorted order.",
 [HS+"hilbert_space.hpp", HS+"fundamental_operator_set.hpp"], [("add_fock_state/get_state_index", HS+"hilbert_space.hpp"), ("insert/operator[]", HS+"fundamental_operator_set.hpp")])
prop("C04", "Many-body states form a vector space over their Hilbert space",
 "State addition, subtraction, scaling and scalar product act amplitude by amplitude for both map-based and vector-based storage, iteration visits every non-zero amplitude once with its own index, and projection onto a sub-space keeps exactly the amplitudes of that sub-space.",
 ["inputs"], "all amplitudes, all index sets within the bounded dimension",
 "Tests check a few fixed states.", [HS+"state.hpp"], [("state operators, foreach, project, dot_product", HS+"state.hpp")])
prop("C05", "Automatic partition finds exactly the invariant subspaces",
 "The subspaces found by the automatic partition are exactly the connected components of the basis states under the Hamiltonian, and the recorded matrix elements are the Hamiltonian's. After merging with a pair of conjugate creation and annihilation operators, that pair maps every subspace into at most one subspace and from at most one, by the fewest mergers that achieve it, and the reported connections between subspaces are exactly the non-vanishing ones.",
 ["inputs"], "every Hamiltonian sparsity pattern and every operator connection pattern on the bounded number of basis states",
 "Tests use one physical model whose blocks are known; the number of possible sparsity patterns is exponential.",
 [HS+"space_partition.hpp"], [("constructor (phase I), merge_subspaces (phase II), find_mappings, lookup_basis_state", HS+"space_partition.hpp")])
prop("C06", "Hamiltonian parameters extracted from an operator reproduce it",
 "Extracting the density-density dictionary, the four-index interaction dictionary or the quadratic block matrix from an operator and rebuilding the operator from it gives back the quadratic/quartic operator one started from, and a term outside the requested form is rejected unless explicitly ignored.",
 ["inputs"], "all coefficients and index choices of operators with a bounded number of terms",
 "Tests use one Kanamori/Slater Hamiltonian.", ["c++/triqs/operators/util/extractors.hpp"], [("extract_h_dict, extract_U_dict2/4, block_matrix_from_op, op_from_block_matrix", "c++/triqs/operators/util/extractors.hpp")])
prop("C07", "Determinant manipulator stays consistent with its matrix",
 "After any sequence of attempted, completed or rejected insertions, removals, row/column changes, swaps and rolls, the stored inverse times the matrix defined by the current row/column arguments is the identity, the stored determinant is that matrix's determinant, and every returned ratio is new determinant over old. A rejected attempt leaves all observable state unchanged.",
 ["histories","inputs"], "all matrix elements (exact arithmetic) and all operation sequences and positions up to the bound",
 "Tests run a random walk with one kernel; sign/permutation errors need particular position combinations and histories.",
 ["c++/triqs/det_manip/det_manip.hpp"], [("try_insert/remove/insert2/remove2/change_*/refill, complete_operation, reject_last_try, swap/roll", "c++/triqs/det_manip/det_manip.hpp")])
# ---------------------------------------------------------------- monte carlo
prop("C08", "Metropolis step: one proposal, right acceptance, exact bookkeeping",
 "Each Monte-Carlo step attempts exactly one move, chosen with probability proportional to its weight, and then calls accept exactly once if the Metropolis test min(1,|ratio|) passes and otherwise reject exactly once. The Monte-Carlo sign is multiplied by the sign of the attempt ratio and of the accept factor only for accepted moves, and acceptance statistics equal accepted over proposed.",
 ["inputs","histories"], "all ratios (any sign, infinite included), all random draws, all weight vectors within bounds, all accept/reject histories up to the bound",
 "Tests run one seeded simulation and compare averages.", [MC+"mc_move_set.hpp", MC+"mc_generic.hpp"], [("attempt/accept/reject, move_set probabilities, metropolis step", MC+"mc_move_set.hpp")])
prop("C09", "Random-number streams are reproducible, in range and never skipped",
 "Two generators with the same name and seed, or a copy, produce the same sequence, and the buffered stream delivers exactly the underlying generator's sequence in order however previews and draws interleave. Every floating point draw lies inside the advertised interval and every bounded integer draw is a valid index.",
 ["inputs","histories"], "all internal generator words, all seeds, all interleavings of preview/draw up to the bound",
 "Tests compare a few draws for one seed; off-by-one at refill or an endpoint needs a specific position or a 1-in-2^32 word.",
 [MC+"MersenneRNG.hpp", MC+"MersenneRNG.cpp", MC+"random_generator.hpp", UT+"buffered_function.hpp"], [("RandMT tempering/reload/scaling", MC+"MersenneRNG.hpp"), ("buffered_function", UT+"buffered_function.hpp"), ("random_generator operator()", MC+"random_generator.hpp")])
prop("C10", "Monte-Carlo run performs exactly the requested cycles and measures",
 "A run performs the requested number of cycles of the requested length unless the stop callback or a signal interrupts it, calls every enabled measure once per measured cycle with the current sign, and never measures during warm-up. The returned status tells a completed run (0), a time/stop-callback interruption (1) and a signal (2) apart, and a measured shared quantity is computed at most once per cycle.",
 ["histories","inputs"], "all cycle counts/lengths within bounds and all points at which the stop condition or a signal may occur",
 "Tests run to completion only.", [MC+"mc_generic.hpp", MC+"mc_measure_set.hpp", MC+"mc_measure_aux_set.hpp"], [("run loop", MC+"mc_generic.hpp"), ("measure_set.accumulate", MC+"mc_measure_set.hpp")])
# ---------------------------------------------------------------- utility
prop("C11", "Signals are queued once, in order, and stop callbacks fire on time",
 "While the handler is started, every delivered signal is recorded once and reported as received until it is popped, the most recent first; after stop nothing recorded before is reported. A clock callback of n seconds returns true once more than n seconds have elapsed and not before, and never for n <= 0.",
 ["schedules","inputs"], "all bounded sequences of start/stop/raise/receive/pop and all clock readings",
 "Tests cannot place a signal or a clock reading at every point.", [UT+"signal_handler.cpp", UT+"signal_handler.hpp", UT+"callbacks.cpp"], [("slot, signals_list", UT+"signal_handler.cpp"), ("clock_callback", UT+"callbacks.cpp")])
prop("C12", "Linear and logarithmic binning conserve the recorded data",
 "However data are fed to the binning accumulators, the number of recorded data is conserved, completed bins hold the exact average of consecutive samples, and compressing bins merges neighbours without changing the weighted mean. The logarithmic accumulator's per-level mean and sum of squared deviations equal those of the level's bin averages.",
 ["inputs","histories"], "all sample values and all history lengths/capacities within bounds",
 "Tests check a few lengths; the off-by-one cases sit at particular (count, capacity, bin size) combinations.",
 [ST+"accumulator.hpp", ST+"lin_binning.hpp" if os.path.exists("/repo/"+ST+"lin_binning.hpp") else ST+"accumulator.hpp"], [("lin_binning::operator<<, compress; log_binning::operator<<", ST+"accumulator.hpp")])
prop("C13", "Mean, standard error and jackknife equal their definitions",
 "The mean, the standard error and the jackknife estimate (value, error, naive error, bias) of a series equal their textbook definitions, the jackknife of the identity is the mean, and splitting a series over processes gives the result of the whole series.",
 ["inputs"], "all series values and lengths within bounds, all splits of the series over processes within bounds",
 "Tests check one random series.", [ST+"jackknife.hpp", ST+"mean_error.hpp"], [("mean, mean_and_err, jackknife, mpi_reduce_MQ", ST+"jackknife.hpp")])
prop("C14", "Histograms never lose, invent or misplace a sample",
 "Every accumulated value is either put in the unique nearest bin or counted as lost when outside the limits, so that bin counts plus lost equals the number of samples. Adding histograms adds counts, and the derived probability and cumulative distributions are normalised and monotone.",
 ["inputs","histories"], "all sample values (including boundaries, infinities and NaN), limits and bin numbers within bounds",
 "Tests insert ordinary values only.", [ST+"histograms.cpp", ST+"histograms.hpp"], [("histogram::operator<<", ST+"histograms.cpp")])
prop("C15", "Legendre and Bessel helpers satisfy their defining relations",
 "The Legendre generator yields successive Legendre polynomials by the three-term recurrence with P_0=1 and P_1=x for every argument, restarting cleanly after reset. The tail coefficients and the Matsubara-Legendre transformation have the parity and conjugation symmetry of their definition, and the modified spherical Bessel function is sqrt(pi/2x) times the modified cylindrical one of half-integer order, with its limit at x=0.",
 ["inputs"], "all arguments in the domain, orders up to the bound",
 "Tests compare a few numbers.", [UT+"legendre.cpp", UT+"legendre.hpp"], [("legendre_generator, legendre_T, legendre_t, mod_cyl_bessel_i", UT+"legendre.cpp")])
prop("C16", "Scalar helpers agree for real, complex and integer arguments",
 "is_zero answers whether a number is within the tolerance of zero for real, complex and integral types; conj/real/imag decompose every number; and the real-or-complex number type computes exactly as complex numbers do while remaining real whenever both operands are real.",
 ["inputs"], "all finite values of each scalar type, all tolerances",
 "Tests check a few constants.", [UT+"numeric_ops.hpp", UT+"real_or_complex.hpp"], [("is_zero, conj, real, imag", UT+"numeric_ops.hpp"), ("real_or_complex operators", UT+"real_or_complex.hpp")])
prop("C17", "Scope guards, report streams and timers behave as documented",
 "A scope guard runs its action exactly once when its scope ends by return or by exception. A report stream emits exactly what is written at a verbosity not above the limit and nothing above it, and a timer's elapsed time is the sum of its running intervals.",
 ["histories","inputs"], "all exit paths, all verbosity levels and message sequences within bounds, all clock readings",
 "Tests exercise one path.", [UT+"scope_guard.hpp", UT+"report_stream.hpp", UT+"timer.hpp"], [("scope_guard", UT+"scope_guard.hpp"), ("report_stream", UT+"report_stream.hpp"), ("timer", UT+"timer.hpp")])
prop("C18", "Tuple serialisation round-trips in order",
 "Serialising a tuple and deserialising into a tuple of the same type restores every element, in order, consuming exactly what was written; the tuple helper algorithms visit every element exactly once in the documented order.",
 ["inputs"], "all element values for tuples up to the bounded arity",
 "Tests use one tuple.", [UT+"tuple_serialize.hpp", UT+"tuple_tools.hpp"], [("tuple serialize", UT+"tuple_serialize.hpp"), ("tuple::for_each/fold/map", UT+"tuple_tools.hpp")])
prop("C19", "Imaginary-time circle arithmetic is exact",
 "Times on the imaginary-time circle behave as integers modulo the circle: sums and differences are cyclic and mutually inverse, comparison follows the position on the circle, conversion to a floating point time stays in [0,beta], and random times never fall outside the requested interval.",
 ["inputs"], "all pairs of 64-bit positions and all inverse temperatures",
 "Wrap-around cases form a vanishing fraction of random inputs.", [UT+"time_pt.hpp"], [("time_pt, time_segment", UT+"time_pt.hpp")])
# ---------------------------------------------------------------- meshes, lattice
prop("C20", "One-dimensional meshes map index, position and value one to one",
 "On every one-dimensional mesh (linear time/frequency, Matsubara, Legendre, discrete) the mathematical index, the storage position and the value are in bijection over the mesh's range, iteration visits storage positions in order, and indices outside are recognised as outside. The closest mesh point to a value is a nearest one, and linear interpolation reproduces mesh-point values with weights that sum to one.",
 ["inputs"], "all mesh sizes, statistics, windows and positions within bounds",
 "Tests use one or two sizes per mesh.", [ME+"imfreq.hpp", ME+"bases/linear.hpp", ME+"legendre.hpp", ME+"discrete.hpp"], [("to_data_index/to_index/to_value/is_index_valid", ME+"bases/linear.hpp"), ("first/last index", ME+"imfreq.hpp")])
prop("C21", "Matsubara frequency arithmetic is that of the numbers it denotes",
 "A Matsubara frequency denotes i(2n+1)pi/beta for fermions and 2i n pi/beta for bosons; negation, sums and differences of frequencies denote the negated, summed and subtracted numbers with the statistics that follows, and products and quotients with numbers or frequencies are those of the complex numbers.",
 ["inputs"], "all indices, statistics and inverse temperatures",
 "Tests check a few indices.", [ME+"domains/matsubara.hpp"], [("matsubara_freq operators", ME+"domains/matsubara.hpp")])
prop("C22", "Periodic lattice meshes fold every index consistently",
 "On the real-space cyclic lattice and Brillouin-zone meshes, storage position and index are in bijection, any integer index folds to the unique representative congruent to it modulo the periods, and values follow the mesh units. A product mesh combines its components without mixing them.",
 ["inputs"], "all periods within bounds and all integer indices, negative included",
 "Tests use positive or slightly negative indices on one shape.", [ME+"bases/cluster_mesh.hpp" if os.path.exists("/repo/"+ME+"bases/cluster_mesh.hpp") else ME+"cyclat.hpp", ME+"brzone.hpp", ME+"prod.hpp"], [("index_modulo, to_data_index, to_index, closest", ME+"brzone.hpp")])
prop("C23", "Direct and reciprocal lattices are dual and conversions invert",
 "For every set of independent lattice vectors in 1-3 dimensions, reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij, conversion between lattice and real coordinates is linear and inverts, and k-point grids cover the zone uniformly, each point once.",
 ["inputs"], "all independent unit-cell matrices (exact arithmetic), all grid sizes within bounds",
 "Tests use orthogonal cells.", [LA+"brillouin_zone.hpp", LA+"brillouin_zone.cpp", LA+"bravais_lattice.hpp", LA+"bravais_lattice.cpp", LA+"grid_generator.hpp"], [("reciprocal matrix", LA+"brillouin_zone.cpp"), ("grid_generator", LA+"grid_generator.hpp")])
prop("C24", "Pade continuation interpolates its input",
 "The Pade continued fraction built from N distinct points passes through every one of them, for every admissible choice of values.",
 ["inputs"], "all sample values/positions (exact arithmetic), N up to the bound",
 "Tests compare one function.", [UT+"pade_approximants.hpp"], [("pade_approximant", UT+"pade_approximants.hpp")])
GF = "c++/triqs/gfs/"
prop("C25", "C++ Green's functions: arithmetic, copies, views and blocks act as documented",
 "Sums, differences, scalar multiples, products, quotients, inverses and in-place forms of C++ Green's functions, lazy expressions included, act at every mesh point on every component (as matrices for matrix targets; a product in imaginary time has the product of the statistics) and leave the operands unchanged; operands on different meshes, of different shapes or with different numbers of blocks are rejected with an exception, and a rejected assignment to a view changes nothing. Copies own their data, while views, slices, partial evaluations on product meshes and block views share it, address exactly the addressed elements and change nothing else. Block functions act block by block and keep names and order, and a function stored in HDF5 is read back.",
 ["inputs"], "all values of all data at every mesh point, all choices of mesh size, component, block, operand coincidence and operation within the bounds",
 "Tests compare a few functions with fixed data and one shape.", [GF+"gf/gf.hpp", GF+"gf/gf_view.hpp", GF+"gf/_gf_view_common.hpp", GF+"gf/gf_expr.hpp", GF+"gf/flatten.hpp", GF+"block/block_gf.hpp", GF+"block/block_gf_view.hpp", GF+"block/expr.hpp", GF+"block/map.hpp", GF+"h5.hpp", GF+"functions/functions2.hpp"],
 [("gf_expr::mesh, data_shape, operator[]", GF+"gf/gf_expr.hpp"), ("operator= of gf and gf_view", GF+"gf/gf.hpp"), ("_subscript_impl", GF+"gf/_gf_view_common.hpp"), ("flatten_gf_2d, unflatten_gf_2d", GF+"gf/flatten.hpp"), ("_assign_impl", GF+"block/_block_gf_view_common.hpp"), ("map_block_gf", GF+"block/map.hpp")])
prop("C26", "C++ Green's functions: values off the mesh, symmetries, changes of mesh",
 "Evaluating a Green's function gives the stored value at a mesh point, the (multi)linear interpolation between points of real or imaginary time or real frequencies, the complex conjugate at mirrored frequencies of a mesh of positive frequencies, periodic continuation on lattices, the Legendre sum, and zero outside the Matsubara frequencies of a product mesh. is_gf_hermitian and is_gf_real_in_tau hold iff the definition holds to the tolerance, make_hermitian and make_real_in_tau return the symmetric part without touching the operand, and positive_freq_view, make_gf_from_real_gf, restricted_view, rebinning_tau and the Legendre transformation have the mesh and the values of their definition for both statistics and both frequency options.",
 ["inputs"], "all values of all data, all evaluation points and tolerances; mesh sizes within the bounds",
 "Tests compare a few functions at a few points.", [GF+"evaluator.hpp", GF+"functions/imfreq.hpp", GF+"functions/imtime.hpp", GF+"functions/imtime.cpp", GF+"functions/functions2.hpp", GF+"transform/legendre_matsubara.hpp", GF+"h5.hpp", ME+"evaluate.hpp" if os.path.exists("/repo/"+ME+"evaluate.hpp") else ME+"utils.hpp"],
 [("is_gf_hermitian, make_hermitian, make_real_in_tau, positive_freq_view, restricted_view", GF+"functions/imfreq.hpp"), ("rebinning_tau", GF+"functions/imtime.cpp"), ("legendre_matsubara_direct/inverse", GF+"transform/legendre_matsubara.hpp")])
prop("C27", "Fourier transforms of C++ Green's functions compute the transform and invert",
 "The Fourier transforms between imaginary time and Matsubara frequencies (both statistics), real time and real frequency, and lattice and momentum give the defining sum over the mesh (trapezoidal in imaginary time), the high-frequency moments (given, or fitted or taken from the derivatives at the boundary when missing) being transformed analytically, so that sums of poles are exact, the discontinuity is the first moment and the transform from frequencies to times (and between real meshes and lattices) is inverted by the transform back. Each component, each block and, on a product mesh, each value of the other variables is transformed by itself into the adjoint mesh, lazily or not, without touching the operand; a constant term, time meshes that are too short, positive frequencies only, incompatible real meshes and badly fitted moments are rejected.",
 ["inputs"], "all values of the function and of its moments (bounded by 10); mesh sizes within the bounds",
 "Tests compare one or two functions.", [GF+"transform/fourier.hpp", GF+"transform/fourier_common.cpp", GF+"transform/fourier_matsubara.cpp", GF+"transform/fourier_real.cpp", GF+"transform/fourier_lattice.cpp", ME+"adjoint.hpp", ME+"tail_fitter.hpp"],
 [("_fourier_impl, fit_tail", GF+"transform/fourier_matsubara.cpp"), ("_fourier_impl", GF+"transform/fourier_real.cpp"), ("make_gf_from_fourier", GF+"transform/fourier.hpp")])
prop("C28", "Tail fits and densities of C++ Green's functions are exact where they can be",
 "Fitting the tail of a Green's function whose values in the fit window are a series in 1/omega up to the order of the fit returns exactly its moments, whatever the values outside the window, for every known leading moments (which are kept), component, block, variable of a product mesh, restricted window and sequence of earlier fits, as many moments as order and conditioning allow; Hermitian fits return Hermitian moments. The tail continues a function beyond its mesh, replaces it from the given frequency on and nowhere else; the density is the Matsubara sum with the tail summed exactly, the integral of the spectral function over the negative frequencies (or with the Fermi function), or the value of the Legendre series at the end, and the enforced discontinuity is the first moment; missing moments are fitted, and constant terms, positive frequencies only, too few points, bad fits and wrong shapes are rejected.",
 ["inputs"], "all values of the function inside and outside the window and of the moments (bounded by 10); mesh sizes within the bounds",
 "Tests compare one or two functions.", [ME+"tail_fitter.hpp", GF+"functions/functions2.hpp", GF+"functions/imfreq.hpp", GF+"functions/density.hpp", GF+"functions/density.cpp", GF+"functions/legendre.cpp", GF+"evaluator.hpp"],
 [("tail_fitter::fit, setup_lss, get_tail_fit_indices", ME+"tail_fitter.hpp"), ("density", GF+"functions/density.cpp"), ("replace_by_tail", GF+"functions/imfreq.hpp"), ("get_tail, enforce_discontinuity", GF+"functions/legendre.cpp")])
prop("C29", "atom_diag solves the problem it is given and its Green's functions are exact",
 "For every Hamiltonian, hybridisation, set of quantum numbers or range of particle numbers the kept Fock states are partitioned into subspaces that the Hamiltonian does not connect, sorted by energy, with unitary transformations to eigenstates whose energies are relative to the ground state, and the vacuum and the matrices and connections of every creation, annihilation or other operator are those of the operator in the eigenbasis (operators that do not map subspaces one to one are rejected). Partition function, density matrix, averages, action on states and quantum numbers of eigenstates follow from them, the Lehmann representation is the sum over all pairs of eigenstates, and Green's functions of Matsubara and real frequencies, imaginary time and Legendre polynomials are the sums over its poles. A problem stored to HDF5 is restored.",
 ["inputs"], "all levels, interactions and amplitudes along fixed mixing angles; operators and states with any coefficients; up to 3 modes",
 "Tests compare with stored results of a few models.", ["c++/triqs/atom_diag/atom_diag.hpp", "c++/triqs/atom_diag/impl/atom_diag.cpp", "c++/triqs/atom_diag/impl/worker.cpp", "c++/triqs/atom_diag/impl/functions.cpp", "c++/triqs/atom_diag/impl/gf.cpp", "c++/triqs/atom_diag/gf.hpp"],
 [("autopartition, partition_with_qn, complete", "c++/triqs/atom_diag/impl/worker.cpp"), ("get_op_mat, matrix_element_of_monomial, h5_read", "c++/triqs/atom_diag/impl/atom_diag.cpp"), ("trace_rho_op, act, quantum_number_eigenvalues", "c++/triqs/atom_diag/impl/functions.cpp"), ("atomic_g_lehmann, atomic_g_*", "c++/triqs/atom_diag/impl/gf.cpp")])
# ---------------------------------------------------------------- Python
prop("P01", "Work is split over MPI processes without loss or duplication",
 "For every array length and every number of processes, the slices handed to the processes are contiguous, disjoint, ordered, cover the array exactly once and differ in size by at most one. The serial fall-back gives the whole array to the single process and leaves data unchanged in broadcast and reduction.",
 ["inputs","configurations"], "all lengths, ranges, ranks and numbers of processes (unbounded integers)",
 "Tests run with one process count.", [PY+"utility/mpi_mpi4py.py", PY+"utility/mpi_nompi.py"], [("slice_inf/slice_sup/slice_array", PY+"utility/mpi_mpi4py.py")])
prop("P02", "Task distribution over nodes runs every task exactly once",
 "Distributing a stack of tasks computes every task exactly once and returns each result with its own task and the node that computed it, tasks added while others are treated included; a worker answers every message once, talks to the master only and stops when told so, whatever the order of completion.",
 ["schedules"], "all completion orders for bounded numbers of tasks and nodes",
 "Tests cannot choose the completion order.", [PY+"utility/dist_on_nodes.py"], [("DistributionOnNodes.run", PY+"utility/dist_on_nodes.py")])
prop("P03", "Root bracketing and bisection return a genuine solution or say so",
 "The dichotomy and bisection searches return either an argument whose function value (dichotomy) or position (bisection) is within the requested tolerance of the target together with the value of the function there, or report failure after using the stated number of evaluations; every bracket they build encloses the target, refinements stay inside it, and the number of evaluations never exceeds the limit.",
 ["inputs"], "all monotone function value sequences (the function is an arbitrary oracle), all targets, precisions and step widths within bounds on iterations",
 "Tests use one analytic function.", [PY+"utility/dichotomy.py", PY+"utility/bound_and_bisect.py"], [("dichotomy", PY+"utility/dichotomy.py"), ("bound_and_bisect", PY+"utility/bound_and_bisect.py")])
prop("P04", "Python mesh points and Matsubara frequencies compute as their values",
 "Arithmetic between mesh points, Matsubara frequencies and numbers in Python gives the number obtained from the values; sums and differences of Matsubara frequencies keep exact index and statistics; product meshes map tuples of component indices to storage positions component by component and iterate over every combination once.",
 ["inputs"], "all indices, statistics, values; component sizes within bounds",
 "Tests check a few operators.", [PY+"gf/matsubara_freq.py", PY+"gf/mesh_point.py", PY+"gf/mesh_product.py"], [("MatsubaraFreq operators", PY+"gf/matsubara_freq.py"), ("MeshPoint", PY+"gf/mesh_point.py"), ("MeshProduct", PY+"gf/mesh_product.py")])
prop("P05", "Lazy expressions evaluate to what direct evaluation gives",
 "Building an expression lazily and evaluating it in a context gives the value obtained by applying the same operations directly, for every nesting of +, -, *, / and lazy function calls with terminals or numbers on either side; transforming an expression rewrites every node and leaves the original, copies are independent, and terminals of incompatible contexts are rejected.",
 ["inputs","programs"], "all leaf values and all expression shapes up to the bounded depth",
 "Tests try a few shapes.", [PY+"gf/lazy_expressions.py"], [("LazyExpr, eval_expr_with_context, transform", PY+"gf/lazy_expressions.py")])
prop("P06", "Block Green's functions act block by block",
 "Every operation on a block Green's function (one or two block indices): arithmetic, copy, selection, inversion, conjugation, assignment, mapping, is the corresponding operation on each block under its own name, copies share no data with the original, and views share all of it.",
 ["inputs","histories"], "all block values, all block-name selections and operation choices within bounds",
 "Tests compare few fixed objects.", [PY+"gf/block_gf.py", PY+"gf/block2_gf.py", PY+"gf/map_block.py"], [("BlockGf operators", PY+"gf/block_gf.py"), ("Block2Gf operators", PY+"gf/block2_gf.py"), ("map_block", PY+"gf/map_block.py")])
prop("P07", "Green's function container arithmetic is pointwise",
 "Adding, subtracting, multiplying, dividing, negating, transposing, conjugating and inverting Green's functions acts independently at every mesh point as the scalar/matrix operation, with statistics of an imaginary-time product following the operands. Binary operations never modify their operands, in-place ones modify only the left one, and index access reads and writes exactly the addressed data.",
 ["inputs","histories"], "all data values on bounded mesh and target sizes, all operand kinds",
 "Tests compare a few fixed Green's functions.", [PY+"gf/gf.py"], [("Gf operators and __getitem__/__setitem__", PY+"gf/gf.py")])
prop("P08", "Green's function initialisers and Dyson helper satisfy their equations",
 "The lazy initialisers set every mesh point to the function they stand for, the semicircular Green's function solves its quadratic equation with the correct imaginary sign, and the Dyson helper returns the quantity that makes G0^-1 - G^-1 = Sigma hold. The hybridisation of a discrete bath is the sum over its levels, and its fit, text and Legendre representations return the function they were given.",
 ["inputs"], "all frequencies, constants and scalar/matrix data within bounds",
 "Tests check plots or norms.", [PY+"gf/descriptor_base.py", PY+"gf/descriptors.py", PY+"gf/tools.py"], [("Function/Const/Omega/SemiCircular", PY+"gf/descriptor_base.py"), ("dyson", PY+"gf/tools.py")])
prop("P09", "Coulomb tensors have the symmetries and limits of their definition",
 "Slater parameters and (U,J) convert back and forth exactly; the Slater tensor is linear in the radial integrals and obeys its exchange and hermiticity symmetries in every basis; the Kanamori tensor and its two-index reduction agree; basis changes are unitary, and sub-shell extraction picks the named orbitals in every convention.",
 ["inputs","configurations"], "all interaction parameters (exact arithmetic) for s,p,d,f shells and all conventions",
 "Tests compare one parameter set.", [PY+"operators/util/U_matrix.py"], [("U_matrix_slater, U_matrix_kanamori, reduce_4index_to_2index, U_J_to_radial_integrals, spherical_to_cubic", PY+"operators/util/U_matrix.py")])
prop("P10", "Model Hamiltonians and observables equal their defining operators",
 "The density-density, Kanamori and Slater Hamiltonian builders and the number, spin and orbital-momentum observables return exactly the operator given by their documented formula for every parameter, spin/orbital naming and block convention; interaction Hamiltonians are Hermitian and conserve particle number, and angular momentum operators obey their commutation relations.",
 ["inputs","configurations"], "all interaction parameters (symbolic) for a bounded number of orbitals, all naming conventions",
 "Tests compare one model.", [PY+"operators/util/hamiltonians.py", PY+"operators/util/observables.py", PY+"operators/util/op_struct.py"], [("h_int_*", PY+"operators/util/hamiltonians.py"), ("S_op, L_op, ...", PY+"operators/util/observables.py")])
prop("P11", "Superlattice folding preserves the lattice and its hoppings",
 "For every superlattice, lattice coordinates and (supercell, site) coordinates are in bijection, site/orbital packing inverts, and folding moves each hopping to exactly one entry so the folded model has the same hopping between every pair of physical sites.",
 ["inputs"], "all integer lattice positions, all hopping values; superlattice matrices from a bounded family",
 "Tests use one superlattice.", [PY+"lattice/super_lattice.py"], [("fold, change_coordinates_*, pack/unpack", PY+"lattice/super_lattice.py")])
prop("P12", "Lattice input helpers build what they were given",
 "Reading Wannier90 output gives every hopping divided by its degeneracy at its own displacement and the lattice vectors in Angstrom; spin extension doubles the model block-diagonally; conversion from other tight-binding descriptions is Hermitian; k-space paths run linearly between the given points with cumulative Euclidean distance.",
 ["inputs"], "all numeric values; numbers of orbitals, displacements and segments within bounds",
 "Tests read one file.", [PY+"lattice/utils.py"], [("parse_*, extend_wannier90_to_spin, TB_from_pythTB, k_space_path", PY+"lattice/utils.py")])
prop("P13", "Density of states integrates correctly",
 "The density below a chemical potential is the trapezoidal integral of the tabulated density of states (with the interval average inside the last interval), increasing with the chemical potential, zero below the band and the full integral above it; Hilbert-transform weights are the density times the width of the cell around each point, normalised to one; the Hilbert transform is the weighted sum of the inverses of (z + mu - epsilon - field - Sigma), refined until converged when asked.",
 ["inputs"], "all non-negative tables and all chemical potentials, bounded table length",
 "Tests use one table and mu inside the band.", [PY+"dos/dos.py", PY+"dos/hilbert_transform.py"], [("DOS.density", PY+"dos/dos.py"), ("HilbertTransform normalisation", PY+"dos/hilbert_transform.py")])
prop("P14", "k-sum equals the weighted sum of lattice Green's functions",
 "The discrete k-sum returns, for every self-energy, chemical potential, field and hopping, the weighted sum over k points of the inverse of (iw + mu - eps_k - field - Sigma), with weights that sum to one.",
 ["inputs"], "all hoppings, weights, self-energies and chemical potentials on bounded sizes",
 "Tests compare one model.", [PY+"sumk/sumk_discrete.py", PY+"sumk/sumk_discrete_from_lattice.py"], [("SumkDiscrete.__call__", PY+"sumk/sumk_discrete.py")])
prop("P15", "Plot windows select exactly the points inside",
 "Clipping an increasing abscissa to a window selects exactly the points inside it, and curve/histogram plot data pair every ordinate with its own abscissa.",
 ["inputs"], "all increasing arrays up to the bound and all windows",
 "Tests do not check windows.", [PY+"plot/protocol.py", PY+"stat/histogram.py"], [("clip_array, plot_protocol_apply", PY+"plot/protocol.py")])
prop("P16", "File and object comparison reports every difference beyond tolerance",
 "The comparison helpers accept two data sets if and only if they have the same structure (types, shapes, lengths, keys, meshes, block names) and all numbers agree within the requested precision (operators: exactly), for any nesting of groups and any position of the difference.",
 ["inputs"], "all values, tolerances and structures up to the bounded size",
 "The tests use them as oracles and never check them.", [PY+"utility/h5diff.py", PY+"utility/comparison_tests.py"], [("compare", PY+"utility/h5diff.py"), ("assert_arrays_are_close etc.", PY+"utility/comparison_tests.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
    for x in d["anchors"]["files"]:
        if not os.path.exists("/repo/" + x): print("missing", d["id"], x)
    assert d["statement"].count(". ") <= 2, d["id"]
print(len(P))
