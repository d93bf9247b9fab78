#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, properties.jsonl, specs.py and the harnesses (run after editing)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import specs
HOW = {
'C01': 'Words of symbolic letters are multiplied, added, daggered; the result is compared (a) with the matrix of the same product on a small Fock space, computed letter by letter, (b) with its own canonical form: strictly ordered letters, no zero coefficient, equal operators equal as objects. HDF5 storage of operators and of the index set is read back.',
'C02': 'The library applies an imperative_operator to a basis state with a fully symbolic 64-bit occupation; the oracle counts occupied modes bit by bit. Acting with a product is compared with acting with the factors in turn.',
'C03': 'Insertions with symbolic 64-bit keys; positions, inverse lookups, membership, iteration order, equality and storage are compared with a list kept by the harness.',
'C04': 'Both storages of a state get symbolic amplitudes; every operation is compared amplitude by amplitude with an array kept by the harness; zero amplitudes and disjoint supports are forced to occur.',
'C05': 'H is a symbolic sparsity pattern (every pattern is a path or a symbolic amplitude); the oracle is a transitive closure over the same matrix, and for the merging phase the least fixed point of the merging rule.',
'C06': 'Operators with symbolic coefficients are taken apart and rebuilt; terms of a different form must raise unless ignored.',
'C07': 'One operation of every kind from permuted states with the new row/column symbolic (exact arithmetic over the reals), pairs of operations from all positions; the oracle is the Laplace expansion of the matrix the arguments define, and inverse times matrix. One symbolic step from an arbitrary permuted state is the inductive step for longer histories.',
'C08': 'The random generator and the moves are stubs returning symbolic draws/ratios; the harness records every call of attempt/accept/reject and recomputes choice, acceptance, sign and statistics.',
'C09': 'Reference Mersenne twister in the harness; the seed is symbolic for chosen draws; buffers over an arbitrary symbolic source; ranges for every draw.',
'C10': 'A run with symbolic draws, the stop callback firing at any cycle, a signal or an exception at any call-out; the harness records all calls of moves and measures and checks the counts, the order, the status and the state left behind.',
'C11': 'Every operation history over deliver/pop/received/stop/start with any signal; the oracle is a list. Clock values are symbolic 64-bit integers.',
'C12': 'Symbolic samples fed in every way; oracle: block averages computed from the raw list.',
'C13': 'Symbolic series; oracle: textbook formulas; ranks of an MPI run are played one after the other and reductions sum their contributions.',
'C14': 'One arbitrary sample (every double with NaN and infinities under floating-point semantics; every real under exact semantics) against the nearest-bin rule; histories, sums, storage, reductions.',
'C15': 'The recurrence is executed on a symbolic argument and compared with explicit polynomials (Bonnet); Bessel functions of boost are uninterpreted.',
'C16': 'All operand-type pairs with symbolic values, compared with complex arithmetic written out in components; zero test for every double under IEEE semantics.',
'C17': 'Every exit path, verbosity and clock reading; the stream is a recording buffer, the clock a sequence of symbolic instants.',
'C18': 'Tuples of symbolic values through the serialiser and every tuple algorithm (visited elements and order recorded).',
'C19': 'The 64-bit grid positions are symbolic bit-vectors; oracle: arithmetic modulo the number of grid points.',
'C20': 'Mesh parameters and the index are symbolic, storage/index/value maps compared with closed formulas; the closest point against all points; interpolation weights against the two neighbours; some entries under IEEE semantics.',
'C21': 'Index and statistic symbolic (64-bit), values over the reals with symbolic beta.',
'C22': 'Symbolic indices (|i| up to 2^13 or 2^20) against the Euclidean remainder; values against the units; nearest point against neighbouring images; product meshes against their components.',
'C23': 'Symbolic lattice vectors; a_i.b_j = 2 pi delta_ij; conversions inverted; grids enumerated against the uniform grid.',
'C24': 'Symbolic points and values; the evaluated fraction at every point is compared with the value (GMP replaced by exact reals).',
'C25': 'The real gfs headers run on an array model (harness/stubs/nda) with symbolic data; each operation is compared with the components written out from snapshots taken before, for every operation, shape, block and coincidence of operands in the bounds; sharing and independence are checked by writing.',
'C26': 'Symbolic data, evaluation points and tolerances on the real headers; oracle: the defining formula written out per component, both statistics and frequency options; the predicates are compared with the conjunction over all components.',
'C27': 'The transforms are linear with concrete coefficients once the mesh is fixed, so every value of the data and the moments is symbolic; oracle: the defining sums written with exp, plus the three-pole function that has the given moments; FFTW is replaced by the definition of the discrete transform, the least-squares worker of nda by normal equations with an arbitrary error estimate.',
'C28': 'Data symbolic: series with symbolic moments in the window, free values elsewhere; the fit must give back the moments (least squares by normal equations, error estimate and conditioning arbitrary); densities against the closed sums with three symbolic poles plus arbitrary noise at every frequency.',
'C29': 'The whole solver runs symbolically (the eigensolver is a model: identity when diagonal, given rotations that diagonalise exactly, otherwise Jacobi on concrete numbers); oracle: dense matrices of the operators by the occupation-number rule, U^+U = 1 and HU = UE, sums over all pairs of eigenstates, Legendre coefficients through modified spherical Bessel functions. One reported defect is recorded, not repaired: the order of get_quantum_numbers().',
'P01': 'slice_inf/slice_sup on integers of the solver (any range, any rank); arrays with symbolic entries; the serial module on symbolic data.',
'P02': 'Pools, mpi and the worker loop are models which complete in every order.',
'P03': 'The function searched is an oracle which returns a fresh symbolic value per argument, constrained to be monotone where that is promised; the returned pair, the brackets and the count of evaluations are checked.',
'P04': 'Symbolic index, beta and numbers; oracle: the values written out.',
'P05': 'Every expression shape up to the bound with symbolic leaves, evaluated lazily and directly.',
'P06': 'Blocks of symbolic data on model meshes; each operation compared with the same on numpy object arrays block by block; sharing and independence checked by writing.',
'P07': 'Symbolic complex data; pointwise oracle; operands compared with snapshots taken before.',
'P08': 'Symbolic frequencies, parameters and data; the defining equations (quadratic of the semicircle, Dyson) are the assertions.',
'P09': 'Exact arithmetic over algebraic numbers; 3j symbols against the Racah formula; tensors against their symmetries and the defining sums; unitarity of the basis changes.',
'P10': 'Builders run on a model operator class with symbolic parameters; compared with the documented formula expanded by the harness.',
'P11': 'All small superlattices, symbolic hoppings; every pair of physical sites compared before and after folding.',
'P12': 'Files whose numbers are symbolic tokens; the parsed model compared with the generated data.',
'P13': 'Symbolic tables (sorted energies, non-negative densities) and chemical potential; oracle: trapezoid rule; Hilbert transform with an uninterpreted inverse.',
'P14': 'Symbolic hoppings, weights, fields; the inverse is uninterpreted, so argument and weight of every term are compared.',
'P15': 'Symbolic increasing abscissas and window; selected points against the definition; plot data paired with their own abscissa.',
'P16': 'Two structures that differ in one place (or nowhere) with symbolic numbers and precision; the verdict must be "different" exactly when some pair differs by more than the precision.',
}
def entries(i):
    r = []
    for u in specs.SPEC[i]['units']:
        py = u.get('kind') == 'py'; t = open(V + ('/pyharness/' if py else '/harness/') + u['harness']).read()
        r += [x for x in re.findall(r'^def (h_\w+)' if py else r'^ENTRY\((h_\w+)\)', t, re.M) if x not in r]
    return r
o = open(V + '/tools/design_head.md').read()
o += '\n## The properties, one by one\n\nEvery property is decided by an SMT verdict over all values within the bounds given; "entries" are the harness functions.\n'
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i not in specs.SPEC: o += '\n### %s %s\n\nNot applicable: %s\n' % (i, p['title'], specs.NA.get(i)); continue
    s = specs.SPEC[i]
    o += '\n### %s %s\n\n* How and against what: %s\n* Bounds: %s.\n* Outside: %s.\n* Entries: %s.\n* Beyond tests: %s\n' % (i, p['title'], HOW[i], s['bounds'], s.get('outside', 'everything beyond these bounds'), ', '.join(e[2:] for e in entries(i)), p['why_tests_cant'])
o += '\n## Planted changes\n\n'
sd = V + '/seeded'; res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
o += '`tools/seeds/*.py` define them, `tools/mkseed.py` confirms them (patch applies, build, stable tests, demonstration on both trees), `tools/runseeds.py` runs the check of their property against each (last results below).\n\n| change | property | what it breaks | needs | quick check |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir(sd)):
    m = json.load(open('%s/%s/meta.json' % (sd, d))); o += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'], m['needs'], res.get(d, 'not run'))
o += '\n' + (open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else '')
open(V + '/DESIGN.md', 'w').write(o)
