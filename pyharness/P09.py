"""P09: Coulomb tensors."""
from pysym import *
import math, itertools, functools
stub('triqs.operators.operators', Operator=type('Operator', (), {}))
U = load('triqs.operators.util.U_matrix')
NAMES = {1: {'triqs': 'x y z', 'vasp': 'x y z', 'wien2k': 'x y z', 'wannier90': 'z x y', 'qe': 'z x y'},
         2: {'triqs': 'xy yz z^2 xz x^2-y^2', 'vasp': 'xy yz z^2 xz x^2-y^2', 'wien2k': 'z^2 x^2-y^2 xy yz xz', 'wannier90': 'z^2 xz yz x^2-y^2 xy', 'qe': 'z^2 xz yz x^2-y^2 xy'}}
NAMES = {l: {c: v.split() for c, v in d.items()} for l, d in NAMES.items()}
NAMES[3] = {c: ['x(x^2-3y^2)', 'z(x^2-y^2)', 'xz^2', 'z^3', 'yz^2', 'xyz', 'y(3x^2-y^2)'] for c in ('triqs', 'vasp')}; NAMES[0] = {c: ['s'] for c in NAMES[2]}
CONV = list(NAMES[2])
@functools.lru_cache(None)
def W(*a):
    """3j symbols of another implementation"""
    from sympy.physics.wigner import wigner_3j
    return float(wigner_3j(*a))
@functools.lru_cache(None)
def gaunt(l, k, m1, m2, m3, m4):
    return (2 * l + 1) ** 2 * W(l, k, l, 0, 0, 0) ** 2 * sum((-1) ** (m1 + m2 + q) * W(l, k, l, -m1, q, m3) * W(l, k, l, -m2, -q, m4) for q in range(-k, k + 1))
def slater(l, tag=''):
    F = [s_real('F%d' % (2 * k), -16, 16) for k in range(l + 1)]; u = U.U_matrix_slater(l, radial_integrals=F); n = 2 * l + 1; check(u.shape == (n,) * 4, 'the shape of the tensor'); R = range(n)
    for a, b, c, d in itertools.product(R, R, R, R): close(u[a, b, c, d], sum(F[k] * gaunt(l, 2 * k, a - l, b - l, c - l, d - l) for k in range(l + 1)), 'the tensor of radial integrals')
    for a, b, c, d in itertools.product(R, R, R, R): close(u[a, b, c, d], u[b, a, d, c], 'exchange of the electrons'); close(u[a, b, c, d], u[c, d, a, b].conjugate(), 'the tensor is hermitian')
    uij, upr = U.reduce_4index_to_2index(u); N = n * n; close(sum(flat(upr)) / N, F[0], 'the average repulsion is F0'); 
    if l: f = {1: [0.2], 2: [1 / 14., 1 / 14.], 3: [286. / 6435, 195. / 6435, 250. / 6435]}[l]; J = sum(x * y for x, y in zip(f, F[1:])); close(sum(flat(uij)) / (n * (n - 1)), F[0] - J, 'the average exchange')
    lad = [math.sqrt(l * (l + 1) - (m - l) * (m - l + 1)) if m < n - 1 else 0.0 for m in R]      # L+ |m> = lad |m+1>
    if l <= 2 or THOROUGH:
        for a, b, c, d in itertools.product(R, R, R, R):
            # <ab| U L+ |cd> = <ab| L+ U |cd>
            x = sum([lad[c] * u[a, b, c + 1, d] if c < n - 1 else 0, lad[d] * u[a, b, c, d + 1] if d < n - 1 else 0]); y = sum([lad[a - 1] * u[a - 1, b, c, d] if a else 0, lad[b - 1] * u[a, b - 1, c, d] if b else 0]); close(x, y, 'rotations leave the tensor alone')
    same(flat(U.U_matrix_slater(l, radial_integrals=F, basis='spherical')), flat(u), 'the spherical basis is the default')
@entry
def h_slater_spd():
    slater(s_pick('l', 0, 2))
@entry
def h_slater_f():
    slater(3)
@entry
def h_slater_UJ():
    """U and J instead of the radial integrals, other bases"""
    l = s_pick('l', 1, 2); Ui, J = s_real('U', -16, 16), s_real('J', -4, 4); F = U.U_J_to_radial_integrals(l, Ui, J); a = flat(U.U_matrix_slater(l, U_int=Ui, J_hund=J)); b = U.U_matrix_slater(l, radial_integrals=list(F)); same(a, flat(b), 'the tensor of U and J')
    n = 2 * l + 1; c = U.U_matrix_slater(l, U_int=Ui, J_hund=J, basis='cubic'); T = U.spherical_to_cubic(l); close(flat(c), flat(U.transform_U_matrix(b, T)), 'the cubic basis'); close(flat(U.U_matrix_slater(l, U_int=Ui, J_hund=J, basis='other', T=T)), flat(c), 'another basis')
    check(all(bool(abs(x.imag) < 1e-6) for x in flat(c)), 'the tensor of real orbitals is real'); R = range(n)
    for i, j, k, m in itertools.product(R, R, R, R): close(c[i, j, k, m], c[k, j, i, m], 'real orbitals can be exchanged')
    import io, contextlib
    G = s_array('F', (l + 1,), -16, 16)
    with contextlib.redirect_stdout(io.StringIO()): close(flat(U.U_matrix_slater(l, radial_integrals=G, U_int=Ui, J_hund=J)), flat(U.U_matrix_slater(l, radial_integrals=G)), 'radial integrals take precedence')
    check(throws(lambda: U.U_matrix_slater(l, radial_integrals=list(F) + [1.0], U_int=Ui, J_hund=J), ValueError), 'wrong numbers of integrals are rejected'); check(throws(lambda: U.U_matrix_slater(l), ValueError), 'missing parameters are rejected'); check(throws(lambda: U.U_matrix_slater(l, U_int=Ui, J_hund=J, basis='other'), ValueError), 'missing parameters are rejected')
@entry
def h_convert():
    """U and J <-> radial integrals"""
    l = s_pick('l', 0, 4); Ui, J = s_real('U', -16, 16), s_real('J', -4, 4)
    if l in (0, 4): check(throws(lambda: U.U_J_to_radial_integrals(l, Ui, J), ValueError), 'other shells are rejected'); check(throws(lambda: U.radial_integrals_to_U_J(l, [Ui]), ValueError), 'other shells are rejected'); return
    F = U.U_J_to_radial_integrals(l, Ui, J); check(len(F) == l + 1, 'the number of radial integrals'); a, b = U.radial_integrals_to_U_J(l, F); close(a, Ui, 'there and back'); close(b, J, 'there and back'); close(F[0], Ui, 'F0 is U')
    if l == 2: close(F[1] + F[2], 14 * J, 'the definition of J'); close(F[2], 0.63 * F[1], 'the ratio of the integrals')
    elif l == 1: close(F[1], 5 * J, 'the definition of J')
    else: close(286 * F[1] + 195 * F[2] + 250 * F[3], 6435 * J, 'the definition of J'); close(F[2] * 675, F[1] * 451, 'the ratio of the integrals'); close(F[3] * 2025, F[1] * 1001, 'the ratio of the integrals')
    G = [s_real('G', -16, 16) for k in range(l + 1)]; u, j = U.radial_integrals_to_U_J(l, G); H = U.U_J_to_radial_integrals(l, u, j); close(H[0], G[0], 'there and back'); close(H[1], G[1], 'there and back')
@entry
def h_reduce():
    """any tensor"""
    n = s_pick('n', 1, 3 if THOROUGH else 2); u = s_array('U', (n,) * 4, -8, 8, s_flag('cplx')); w = flat(u); a, b = U.reduce_4index_to_2index(u); check(a.shape == b.shape == (n, n), 'the shape of the reduced tensor'); same(flat(u), w, 'the operands are left alone')
    for i in range(n):
        for j in range(n): same(b[i, j], u[i, j, i, j].real, 'opposite spins'); same(a[i, j], u[i, j, i, j].real - u[i, j, j, i].real, 'parallel spins')
@entry
def h_kanamori():
    n = s_pick('n', 1, 3); Ui, J = s_real('U', -8, 8), s_real('J', -8, 8); kw = {}; Up = Ui - 2 * J; Jc = J
    if s_flag('U prime'): Up = kw['Up_int'] = s_real('Up', -8, 8)
    a, b = U.U_matrix_kanamori(n, Ui, J, **kw)
    for i in range(n):
        for j in range(n): same(b[i, j], Ui if i == j else Up, 'opposite spins'); same(a[i, j], 0 if i == j else Up - J, 'parallel spins')
    if s_flag('Jc'): Jc = kw['Jc_hund'] = s_real('Jc', -8, 8); check(throws(lambda: U.U_matrix_kanamori(n, Ui, J, **kw), ValueError), 'the pair hopping needs the full tensor')
    f = U.U_matrix_kanamori(n, Ui, J, full_Uijkl=True, **kw); check(f.shape == (n,) * 4, 'the shape of the tensor')
    for i, j, k, l in itertools.product(*[range(n)] * 4): same(f[i, j, k, l], Ui if i == j == k == l else Up if (i, j) == (k, l) else J if (i, j) == (l, k) else Jc if i == j and k == l else 0, 'the full tensor')
    x, y = U.reduce_4index_to_2index(f); same(flat(x) + flat(y), flat(a) + flat(b), 'the reduced full tensor is the two-index one')
@entry
def h_transform():
    """any tensor and any matrix; two changes of basis are one"""
    n, p = s_pick('n', 1, 2), s_pick('p', 1, 2); c = s_flag('cplx'); u = s_array('U', (n,) * 4, -4, 4); T = s_array('T', (p, n), -4, 4, c); w, t = flat(u), flat(T); r = U.transform_U_matrix(u, T); check(r.shape == (p,) * 4, 'the shape of the tensor'); same(flat(u) + flat(T), w + t, 'the operands are left alone'); R = list(itertools.product(*[range(n)] * 4))
    for a, b, x, y in itertools.product(*[range(p)] * 4): same(r[a, b, x, y], sum(T[a, i].conjugate() * T[b, j].conjugate() * u[i, j, k, l] * T[x, k] * T[y, l] for i, j, k, l in R), 'the tensor in the new basis')
@entry
def h_bases():
    """every row is the named real function of x, y, z; the matrices are unitary"""
    l = s_pick('l', 0, 3); cv = s_choice('convention', CONV)
    if l == 3 and cv not in NAMES[3]: check(throws(lambda: U.spherical_to_cubic(l, cv), ValueError), 'unknown conventions are rejected'); return
    if l == 0: check(U.spherical_to_cubic(0, cv).shape == (1, 1), 'the shape of the basis change'); return
    T = U.spherical_to_cubic(l, cv); n = 2 * l + 1; check(T.shape == (n, n), 'the shape of the basis change'); close(np_.dot(T, np_.conj(T.T)), np_.eye(n), 'basis changes are unitary', 1e-9)
    x, y, z = s_real('x', -1, 1), s_real('y', -1, 1), s_real('z', -1, 1); p, q = x + 1j * y, x - 1j * y; r2 = x * x + y * y + z * z; s = math.sqrt
    pos = {1: [(z, s(3 / 4 / math.pi)), (p, -s(3 / 8 / math.pi))], 2: [(2 * z * z - x * x - y * y, s(5 / 16 / math.pi)), (p * z, -s(15 / 8 / math.pi)), (p * p, s(15 / 32 / math.pi))], 3: [((2 * z * z - 3 * x * x - 3 * y * y) * z, s(7 / 16 / math.pi)), (p * (4 * z * z - x * x - y * y), -s(21 / 64 / math.pi)), (p * p * z, s(105 / 32 / math.pi)), (p * p * p, -s(35 / 64 / math.pi))]}[l]
    cs = -1 if cv != 'wien2k' or l == 1 else 1; Y = {}
    for m, (f, c) in enumerate(pos): c = abs(c); Y[m] = f * (c * cs ** m); Y[-m] = (f.conjugate() if hasattr(f, 'conjugate') else f) * c
    want = {'x': (x, 3), 'y': (y, 3), 'z': (z, 3), 'xy': (x * y, 15), 'yz': (y * z, 15), 'xz': (x * z, 15), 'z^2': (2 * z * z - x * x - y * y, 5 / 4), 'x^2-y^2': (x * x - y * y, 15 / 4), 'x(x^2-3y^2)': (x * (x * x - 3 * y * y), 35 / 8), 'z(x^2-y^2)': (z * (x * x - y * y), 105 / 4), 'xz^2': (x * (4 * z * z - x * x - y * y), 21 / 8), 'z^3': (z * (2 * z * z - 3 * x * x - 3 * y * y), 7 / 4), 'yz^2': (y * (4 * z * z - x * x - y * y), 21 / 8), 'xyz': (x * y * z, 105), 'y(3x^2-y^2)': (y * (3 * x * x - y * y), 35 / 8)}
    for i, name in enumerate(NAMES[l][cv]):
        v = sum(T[i, m + l] * Y[m] for m in range(-l, l + 1)); f, c = want[name]; w = f * math.sqrt(c / 4 / math.pi); ok = OR(*[AND(abs((v - w * ph).real) < 1e-7, abs((v - w * ph).imag) < 1e-7) for ph in (1, -1, 1j, -1j)]) if cv == 'wien2k' else None
        if ok is not None: check(ok, 'the rows are the named functions')
        else: close(v, w, 'the rows are the named functions', 1e-7)
@entry
def h_names():
    l = s_pick('l', 0, 3); check(list(U.cubic_names(l)) == NAMES[l]['triqs'] and U.cubic_names('spdf'[l]) == U.cubic_names(l), 'the names of the orbitals'); check(list(U.cubic_names('t2g')) == ['xy', 'yz', 'xz'] and list(U.cubic_names('eg')) == ['z^2', 'x^2-y^2'], 'the names of the orbitals'); check(throws(lambda: U.cubic_names(7), ValueError), 'unknown shells are rejected'); check(throws(lambda: U.spherical_to_cubic(l, 'other'), ValueError), 'unknown conventions are rejected'); check(throws(lambda: U.spherical_to_cubic(4), ValueError), 'unknown shells are rejected')
@entry
def h_submatrix():
    """the orbitals of the sub-shell by name"""
    cv = s_choice('convention', CONV); rank = s_choice('rank', [2, 4] if THOROUGH else [2, 3]); u = s_array('U', (5,) * rank, -8, 8); w = flat(u); N = NAMES[2][cv]
    for f, names in ((U.t2g_submatrix, {'xy', 'yz', 'xz'}), (U.eg_submatrix, {'z^2', 'x^2-y^2'})):
        idx = [i for i, x in enumerate(N) if x in names]; r = f(u, cv); check(r.shape == (len(idx),) * rank, 'the shape of the sub-shell'); [same(r[ii], u[tuple(idx[i] for i in ii)], 'the sub-shell has the named orbitals') for ii in np_.ndindex(*r.shape)]; check(throws(lambda: f(u, 'other'), ValueError), 'unknown conventions are rejected')
        if cv == 'triqs': same(flat(f(u)), flat(r), 'the default convention')
    same(flat(u), w, 'the operands are left alone')
@entry
def h_subarray():
    sh = s_choice('shape', [(2,), (2, 3), (3, 1, 2)]); a = s_array('a', sh, -8, 8); idx = [tuple(i for i in range(n) if s_flag('take')) for n in sh]; assume(all(idx)); idx = [tuple(reversed(i)) if s_flag('reverse') else i for i in idx]; r = U.subarray(a, idx); check(r.shape == tuple(len(i) for i in idx), 'the shape of a subarray'); [same(r[ii], a[tuple(idx[d][i] for d, i in enumerate(ii))], 'the elements of a subarray') for ii in np_.ndindex(*r.shape)]
@entry
def h_three_j():
    """every symbol up to j = 2 (thorough: 3); zero outside of the selection rules"""
    J = 3 if THOROUGH else 2; j = [s_pick('j%d' % k, 0, J) for k in (1, 2, 3)]; jm = lambda: None
    for m1 in range(-j[0] - 1, j[0] + 2):
        for m2 in range(-j[1] - 1, j[1] + 2):
            for m3 in range(-j[2] - 1, j[2] + 2):
                ok = m1 + m2 + m3 == 0 and abs(m1) <= j[0] and abs(m2) <= j[1] and abs(m3) <= j[2] and abs(j[0] - j[1]) <= j[2] <= j[0] + j[1]; w = W(j[0], j[1], j[2], m1, m2, m3) if ok else 0.0; close(U.three_j_symbol((j[0], m1), (j[1], m2), (j[2], m3)), w, '3j symbols', 1e-9)
                if abs(m1) <= j[0] and abs(m2) <= j[1] and abs(m3) <= j[2]: ok = m1 + m2 == m3 and abs(j[0] - j[1]) <= j[2] <= j[0] + j[1]; close(U.clebsch_gordan((j[0], m1), (j[1], m2), (j[2], m3)), (-1) ** (j[0] - j[1] + m3) * math.sqrt(2 * j[2] + 1) * W(j[0], j[1], j[2], m1, m2, -m3) if ok else 0.0, 'Clebsch-Gordan coefficients', 1e-9)
