COMMON = ['double arithmetic is modelled exactly over the reals unless an entry runs with --fp (rounding is outside the claim there)', 'memory allocation succeeds', 'stream formatting has an empty body', 'clang 18 -O1 IR of the sources, not the machine code', 'dependencies absent from the sandbox (nda, h5, mpi, itertools) are replaced by the small models in harness/stubs']
COMMONPY = ['CPython 3.12 semantics of the interpreter that runs the sources', 'floating point numbers are modelled exactly over the reals (rounding is outside the claim)', 'numpy runs on object arrays; its compiled linear algebra and elementary functions are replaced by exact or uninterpreted models', 'compiled TRIQS modules are replaced by the models in pyharness']
def U(name, *src, **k): return dict({'name': name.replace('.', '_'), 'harness': name + '.cpp', 'src': ['$R/' + s for s in src]}, **k)
OPS = ('operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp')
SPEC = {
 'C01': {'units': [U('C01', *OPS)], 'bounds': 'words of 2-4 (thorough 5) letters over arbitrary 64-bit flavours with every ordering and coincidence and every dagger pattern (the first letters fixed in the longer words), products and sums of up to 6 terms, coefficients in 1/32<|c|<64; mixed string/integer flavours from a table', 'outside': 'longer words; coefficients below the zero threshold of the library'},
 'C02': {'units': [U('C02', *OPS)], 'bounds': 'Fock states of 64 modes (all 2^64); products of 1 or 2 canonical operators at any of 64 (one operator, densities) or 12 selected positions (two operators), 3 and 4 operators at tabulated positions; arbitrary real amplitudes, with and without a subspace map; operator sums of products on 3 modes with all amplitudes symbolic and all orders of the fundamental set', 'outside': 'products of more operators'},
 'C03': {'units': [U('C03', *OPS)], 'bounds': 'sets of 4 arbitrary 64-bit flavours, full spaces of 0-30 modes with any index/Fock state, sub-spaces of up to 3 (thorough 4) arbitrary 64-bit Fock states', 'outside': 'full spaces of more than 30 modes (the dimension is an int)'},
 'C04': {'units': [U('C04', *OPS)], 'bounds': 'spaces of 2-3 modes, every amplitude symbolic and either 0 or of modulus 1/8..8', 'outside': 'larger spaces; amplitudes near the zero threshold'},
 'C05': {'units': [U('C05', *OPS)], 'bounds': 'every symmetric sparsity pattern of H on 3-5 basis states with symbolic amplitudes on 3; every pattern of a pair (A, A^T) on 3 states and families of patterns on 4 (thorough 5) states; H any of 2^5 and 2^6 sums of fermionic terms on three modes with the pair c^+, c', 'outside': 'larger spaces; amplitudes near the zero threshold'},
 'C06': {'units': [U('C06', *OPS)], 'bounds': 'quadratic, density-density and two-particle operators on 3-4 flavours with every coefficient symbolic (real, complex, real-or-complex), each combined with one of 12-19 terms of a different form', 'outside': 'more flavours'},
 'C07': {'units': [U('C07')], 'bounds': 'matrices of size 0-4; one operation of every kind at every position from differently permuted states, the newly added elements symbolic; every element of 1x1-3x3 matrices symbolic for single insertions/removals/changes; pairs of operations at all positions on generic matrices; each completed or rejected', 'outside': 'larger matrices, longer histories, vanishing intermediate determinants, rounding (arithmetic is exact)'},
 'C08': {'units': [U('C08', 'utility/signal_handler.cpp')], 'bounds': '1-3 moves with arbitrary symbolic weights (0 included), 1-2 (thorough 3) steps, every random draw in [0,1) and every real ratio symbolic (0, infinities and |r|>1e-6), complex ratios of 6 directions and any modulus, nested move sets, accept factors +-1 or i', 'outside': 'more steps; ratios of modulus below 1e-6; rounding of the cumulated weights'},
 'C10': {'units': [U('C10', 'utility/signal_handler.cpp'), dict(U('C10', 'utility/signal_handler.cpp', flags=['-DMPI_STUB_ENV']), name='C10env')], 'bounds': 'runs of 0-3 (or unlimited) cycles of 1-2 steps, every random draw symbolic, every combination of measured/warm-up, of the cycle where the stop callback fires, of the event at which one of the six signals arrives, of the step that throws, with and without an MPI environment', 'outside': 'longer runs; signals arriving between two instructions of the library rather than at a call-out; real MPI'},
 'C09': {'units': [U('C09a', 'mc_tools/MersenneRNG.cpp'), U('C09b'), U('C09c', 'mc_tools/MersenneRNG.cpp', 'mc_tools/random_generator.cpp')], 'bounds': 'any 32-bit seed, draws 0-3, 300-303 and 622-625 of the twister and the first 1300 draws of 6 seeds; buffers of size 1-3 with a symbolic source and any 3 (thorough 5) operations draw/preview/copy/move on up to 3 streams; every draw u in [0,1) and every bound up to 2^40 in exact arithmetic; three named generators for two seeds', 'outside': 'rounding of i*u and a+(b-a)*u in floating point; the statistical quality of the sequences; longer sequences'},
 'C11': {'units': [U('C11', 'utility/signal_handler.cpp', 'utility/callbacks.cpp')], 'bounds': 'every history of 3 (thorough 4) operations deliver/pop/received/stop/start with any of six signals; any int limit and any 64-bit start and query times', 'outside': 'asynchronous delivery inside the handler (vector reallocation in a signal handler); longer histories'},
 'C12': {'units': [U('C12')], 'bounds': 'histories of 0-11 (thorough 18) arbitrary samples in [-100,100] (real, complex, arrays), maximum number of bins -1..5 (7), capacity 1-3 (4), a manual compression by 0-4 at any time, storage and reload at any time; logarithmic binning of 0-9 and 16-17 (23-24) samples with -1..4 (5) levels', 'outside': 'longer histories; rounding'},
 'C13': {'units': [dict(U('C13'), flags=['-DMPI_STUB_RANKS'])], 'bounds': 'series of 1-4 (thorough 6) arbitrary real or complex values in [-100,100]; jackknife of the identity, square, product and ratio of 2-3 (4) values; every split over 1-2 (3) ranks of 1-2 (3) values each; logarithmic errors of 2-3 (4) ranks with 0-5 values each', 'outside': 'longer series; rounding; the MPI library (ranks are played one after the other, results of non-root ranks of a reduce are arbitrary)'},
 'C14': {'units': [dict(U('C14', 'stat/histograms.cpp'), flags=['-DMPI_STUB_RANKS'])], 'bounds': '6 pairs of limits and all integer limits in -3..3, 1-6 (thorough 12) bins; any one real sample (ties up to rounding apart), every double including NaN and infinities in floating-point arithmetic for 2-4 bins; histories of up to 4 (6) arbitrary samples; sums, storage, reduction and broadcast over 2 ranks', 'outside': 'limits chosen symbolically; more than 2^31 bins'},
 'C15': {'units': [U('C15', 'utility/legendre.cpp', inc=['stubs_c15'])], 'bounds': 'polynomials up to order 8 (thorough 12) at every argument in [-1,1] (order 5 in [-8,8]), order 39 at the ends, reset after 0-5 calls; |n| <= 6 (12), l <= 9 (15) and every value of the Bessel function for the transformation; l <= 9 (14) for the tail coefficients', 'outside': 'the Bessel functions of boost (arbitrary functions here); rounding'},
 'C16': {'units': [U('C16')], 'bounds': 'every integer of 5 types, every real and complex number (moduli up to 100 in arithmetic), every tolerance up to 10, every double in floating point for the zero test; all pairs of real and complex operands of every operation', 'outside': 'rounding in arithmetic; float'},
 'C17': {'units': [U('C17')], 'bounds': 'every way to leave a scope (end, return, exception) and point of dismissal, every history of 3 (thorough 4) moves/assignments/dismissals of two guards; every verbosity and level up to 10^6 with chained output; every history of 4 (6) start/stop/read of a timer at any clock readings', 'outside': 'text formatting; real clocks; starting a running timer or stopping a stopped one'},
 'C18': {'units': [U('C18')], 'bounds': 'tuples of 0-6 elements of different types, every 64-bit value of every element', 'outside': 'longer tuples (the code is a template over the length); printing'},
 'C19': {'units': [U('C19')], 'bounds': 'every pair (triple) of 64-bit grid positions for cyclic addition, subtraction and order; division by 11 divisors; values for every position and 6 lengths beta in exact arithmetic and 3 in floating point; every draw of the generator; every double in [0,beta] for 3 lengths', 'outside': 'other beta; multiples beyond beta'},
 'C20': {'units': [U('C20', 'utility/legendre.cpp', inc=['stubs_c15'])], 'bounds': 'linear meshes of 0-5 points with symbolic ends, the closest point and interpolation for 6 windows at every real argument (every double for 2-3 windows); Matsubara, Legendre and discrete meshes of any size up to 2^40 at every index; DLR meshes of 1-3 symbolic nodes; storage and adjoints of each', 'outside': 'larger linear meshes; the DLR basis itself (an external library)'},
 'C21': {'units': [U('C21')], 'bounds': 'sums, differences, opposites and deltas at every index |n| <= 2^40; values at every |n| <= 10^5; products and quotients for six indices with every number; both statistics', 'outside': 'rounding'},
 'C22': {'units': [U('C22', 'lattice/bravais_lattice.cpp', 'lattice/brillouin_zone.cpp')], 'bounds': 'periodic meshes of extents 1-3 (1-4) with every index |i| <= 2^13 (2^20); values, sums and nearest points on five cells, the nearest momentum and the interpolation at every real momentum in 1-2 dimensions; products of frequency, discrete and lattice meshes of any size', 'outside': 'larger extents; skewed cells for the nearest of all images'},
 'C23': {'units': [U('C23', 'lattice/bravais_lattice.cpp', 'lattice/brillouin_zone.cpp')], 'bounds': 'duality for every independent set of 1-3 vectors with entries in [-4,4] and volume >= 1/2; coordinates for every vector on orthogonal and fixed skewed cells; grids up to 5 points per direction', 'outside': 'rounding; nearly dependent vectors'},
 'C24': {'units': [U('C24', inc=['stubs_c24'])], 'bounds': 'one and two points anywhere in |Re|,|Im| <= 8 with every value, three points at fixed positions with every real or imaginary value, single poles and constants of up to 4 points', 'outside': 'more points; finite precision of GMP and of the double evaluation; degenerate fractions'},
 'C25': {'units': [dict(U('C25', 'utility/legendre.cpp', inc=['stubs_c15']), std='c++2b', link=['-lfmt'])], 'bounds': 'scalar, matrix (real, complex) and rank-3 targets of extents 1-2 on imfreq, imtime, refreq, discrete and product meshes of up to 3 components with 1-4 points; arbitrary values; 9 expressions, 4 in-place forms with every coincidence of operands, into containers and views; 1-3 blocks of different sizes, 1-2 x 1-3 two-index blocks; names from a table', 'outside': 'nda itself (a model of its views and matrix algebra is used); Fourier and Legendre transforms; MPI; larger meshes'},
 'C26': {'units': [dict(U('C26', 'utility/legendre.cpp', 'gfs/functions/imtime.cpp', 'lattice/bravais_lattice.cpp', 'lattice/brillouin_zone.cpp', inc=['stubs_c15']), std='c++2b', link=['-lfmt'])], 'bounds': 'meshes of 1-4 (rebinning 2-6) points, both statistics and frequency options, targets of 0, 2 and 4 indices of extents 1-2; every value, every evaluation point in a cell, Matsubara indices from -4 to 4, lattice indices from -5 to 5, tolerances in [0,1]', 'outside': 'larger meshes; rounding; nda itself (a model is used)'},
 'C27': {'units': [dict(U('C27', 'utility/legendre.cpp', 'lattice/bravais_lattice.cpp', 'lattice/brillouin_zone.cpp', 'gfs/transform/fourier_common.cpp', 'gfs/transform/fourier_matsubara.cpp', 'gfs/transform/fourier_real.cpp', 'gfs/transform/fourier_lattice.cpp', inc=['stubs_c15']), std='c++2b', link=['-lfmt'])], 'bounds': '1-3 positive frequencies with time meshes of up to 4 points more than the minimum, 0-5 known moments, both statistics; real meshes of 3-5 points, with and without the shift by half a bin; lattices of 1-4 x 1-2 sites; targets of 0 and 2 indices of extents 1-2, products with a discrete and a lattice mesh, blocks; every value of modulus up to 14', 'outside': 'FFTW and nda themselves (models are used); larger meshes; rounding beyond 1e-6; the derivation of the moments for functions that are not polynomials of degree 3 near the boundary'},
 'C28': {'units': [dict(U('C28', 'utility/legendre.cpp', 'gfs/functions/density.cpp', 'gfs/functions/legendre.cpp', inc=['stubs_c15']), std='c++2b', link=['-lfmt'])], 'bounds': 'fits of order 1-3 with 0-3 known moments on 4-9 positive frequencies (real meshes: 16 points), order selection for up to 20 points; targets of 0 and 2 indices of extents 1-2, products with a discrete mesh, 2 blocks; densities on 1-3 positive frequencies, 2-4 real frequencies, 1-4 Legendre coefficients; every value of modulus up to 14, both statistics', 'outside': 'the least-squares and singular value routines of LAPACK (a model is used); DLR; larger meshes; rounding beyond 1e-6'},
 'C29': {'units': [dict(U('C29', *OPS, 'utility/legendre.cpp', 'atom_diag/impl/atom_diag.cpp', 'atom_diag/impl/functions.cpp', 'atom_diag/impl/gf.cpp', 'atom_diag/impl/worker.cpp', inc=['stubs_c15', 'stubs_c29']), std='c++2b', link=['-lfmt'])], 'bounds': '1-2 modes with every level, interaction, hopping or pairing amplitude along fixed mixing angles (real and complex), 8 fixed Hamiltonians of 3 modes; every range of particle numbers; 10 forms of operators with every coefficient, every state vector and block density matrix; quantum numbers with every coefficient; Green functions at 2 temperatures, 1-2 frequencies, 3-4 times, 3 real frequencies, 3-4 Legendre coefficients', 'outside': 'the eigensolver (LAPACK: replaced by a model giving exact eigensystems); larger spaces; degeneracies finer than 1e-10; rounding; overflow of cosh at low temperature'},
}
NA = {}
def PYU(n): return [{'name': n, 'kind': 'py', 'harness': n + '.py'}]
SPEC.update({
 'P01': {'units': PYU('P01'), 'bounds': 'slice arithmetic for every integer range (any ends), every rank and 1-64 (thorough 4096) processes, array slices of 0-9 rows; the serial module on every data; host lists of up to 3 nodes; the forwarding wrappers for any argument', 'outside': 'mpi4py itself (replaced by a recording model)'},
 'P02': {'units': PYU('P02'), 'bounds': '1-3 tasks on one process, every completion order of the pool with up to 3 workers; the worker loop for up to 3 tasks', 'outside': 'the master with several MPI processes fails on the unchanged tree (known finding); mpi4py and multiprocessing are replaced by models'},
 'P03': {'units': PYU('P03'), 'bounds': 'the function is an arbitrary oracle (strictly monotone where a solution is promised), any target, precision and step within [1/16,8]; up to 3 (thorough 4) evaluations/refinements in each search', 'outside': 'longer searches; rounding'},
 'P04': {'units': PYU('P04'), 'bounds': 'every integer index, both statistics, every positive beta, every real or complex number; vectors of length 1-3; product meshes of 1-3 components of 1-3 points', 'outside': 'the compiled mesh classes (replaced by models with the same interface)'},
 'P05': {'units': PYU('P05'), 'bounds': 'every expression of depth 2 (thorough 3, right operands of depth 1) over + - * / and two lazy functions, with every leaf value', 'outside': 'deeper expressions; string formatting'},
 'P06': {'units': PYU('P06'), 'bounds': 'one and two block indices, 1-3 blocks, up to 2 mesh points, 1-2 target indices, every data value and scalar', 'outside': 'plotting; more blocks (the code never branches on their number)'},
 'P07': {'units': PYU('P07'), 'bounds': '1-3 mesh points, targets of 0-2 indices of extent 1-2, every (complex) data value, scalar and matrix', 'outside': 'larger extents; rounding; the compiled mesh and Fourier parts (replaced by models)'},
 'P08': {'units': PYU('P08'), 'bounds': 'meshes of 1-4 points with every (imaginary or real) frequency, targets of 0-2 indices of extent 1-2, every parameter, every data value; baths of 1-2 levels and 1-2 orbitals', 'outside': 'the minimiser and the tail fit (replaced by arbitrary results); Fourier and Legendre transforms; rounding'},
 'P09': {'units': PYU('P09'), 'bounds': 'shells s, p, d and f (ladder operators of f in the thorough tier), every value of the interaction parameters, all bases and conventions, tensors of 2-3 orbitals with every entry; 3j and Clebsch-Gordan coefficients for momenta up to 2 (thorough: 3)', 'outside': 'rounding; larger momenta'},
 'P10': {'units': PYU('P10'), 'bounds': '1-3 orbitals, 1-2 spins, every value of the parameters, three naming conventions of the operators', 'outside': 'the compiled operator class (C01; replaced by a model of normal-ordered words); more orbitals'},
 'P11': {'units': PYU('P11'), 'bounds': 'superlattices of up to 6 sites with vectors from -3..3 (1d), -1..2 (2d; thorough -2..2) and five cases in 3d, 3-5 displacements, 1-2 orbitals, every hopping; integer positions from -9..9', 'outside': 'the compiled lattice classes (replaced by a model); rounding'},
 'P12': {'units': PYU('P12'), 'bounds': 'Wannier90 files of 1-3 functions and 1-3 displacements (and up to 45 displacements of one function) with every hopping, degeneracy and lattice vector; models of 1-2 orbitals and up to 2 (thorough: 3) hoppings; paths of 1-2 segments and 1-4 points with every corner', 'outside': 'parsing of decimal numbers and sympy itself (tokens and a model of expressions are used); rounding'},
 'P13': {'units': PYU('P13'), 'bounds': 'tables of 2-4 (thorough: 6) points with every energy, density and chemical potential; Hilbert transforms of 2-3 points, 1-2 orbitals, 1-2 nodes and every self-energy, field, mu and eta (the matrix inverse is an unknown function)', 'outside': 'the compiled Green function operations (replaced by a model); rounding'},
 'P14': {'units': PYU('P14'), 'bounds': '1-2 dimensions with 2 points each (grids: up to 3 dimensions and 5 points), 1-2 orbitals, 1-2 blocks, 1-2 nodes, every hopping, weight, self-energy, field and chemical potential (the matrix inverse is an unknown function); polygons of 3-5 corners', 'outside': 'the compiled Green function operations and lattice (replaced by models); rounding'},
 'P15': {'units': PYU('P15'), 'bounds': 'every increasing array of 0-4 (thorough 5) points, every window; Green functions of 6 mesh kinds with 2-4 points and targets up to 2x2, every data value; histograms of 2-4 bins', 'outside': 'matplotlib itself, two-dimensional and Brillouin-zone plots, NaN, rounding in numpy.arange; the compiled meshes and functions (replaced by models)'},
 'P16': {'units': PYU('P16'), 'bounds': 'arrays of 0-4 numbers, Green functions with 1-2 frequencies and targets up to 2x1, 1-2 blocks, groups, lists and tuples of 0-2 entries nested two deep, one differing structure each; every value and every precision in [0.01, 2] (and the default)', 'outside': 'numpy scalars and string arrays (reported as not comparable), NaN, rounding, the HDF5 file format (archives are replaced by nested dictionaries), coefficients of operators below their own zero threshold'},
})
