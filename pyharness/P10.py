"""P10: Hamiltonians and observables."""
from pysym import *
from opmodel import *
import itertools, math, io
H = load('triqs.operators.util.hamiltonians'); O = load('triqs.operators.util.observables'); S = load('triqs.operators.util.op_struct'); UM = load('triqs.operators.util.U_matrix')
import builtins
class File:
    def __init__(s): s.text = ''
    def write(s, x): s.text += x
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): pass
    def flush(s): pass
def setting(maxorb=2):
    """names of spins, number of orbitals and a naming convention: (keyword arguments, spin, orbital -> operator index)"""
    sp = s_choice('spins', [['up', 'down'], ['down', 'up'], ['one']] if maxorb < 3 else [['up', 'down']]); no = s_pick('orbitals', 1, maxorb); k = s_pick('naming', 0, 2)
    if k == 0: return sp, no, {'off_diag': True}, lambda s, o: (s, o)
    if k == 1: return sp, no, {'off_diag': False}, lambda s, o: ('%s_%s' % (s, o), 0)
    m = {(s, o): ('blk%d' % (o % 2), 2 * o + i) for i, s in enumerate(sp) for o in range(no)}; return sp, no, {'map_operator_structure': m, **({'off_diag': True} if s_flag('both') else {})}, lambda s, o: m[(s, o)]
def two(sp, no): return [((s, o), (t, p)) for s in sp for t in sp for o in range(no) for p in range(no) if (s, o) != (t, p)]
def conserves(h, sp, no, ix): N = sum((n(*ix(s, o)) for s in sp for o in range(no)), Operator()); equal(comm(h, N), Operator(), 'the number of particles is conserved')
@entry
def h_density():
    sp, no, kw, ix = setting(); U, V = s_array('U', (no, no), -8, 8), s_array('V', (no, no), -8, 8); w = flat(U) + flat(V); h = H.h_int_density(sp, no, U, V, **kw); same(flat(U) + flat(V), w, 'the operands are left alone')
    want = sum((n(*ix(*a)) * n(*ix(*b)) * (0.5 * (U if a[0] == b[0] else V)[a[1], b[1]]) for a, b in two(sp, no)), Operator()); equal(h, want, 'the density-density Hamiltonian'); equal(dagger(h), h, 'interactions are hermitian'); conserves(h, sp, no, ix); equal(H.diagonal_part(h), h, 'the density part')
@entry
def h_kanamori():
    sp, no, kw, ix = setting(); U, V, J = s_array('U', (no, no), -8, 8), s_array('V', (no, no), -8, 8), s_real('J', -8, 8); h = H.h_int_kanamori(sp, no, U, V, J, **kw); d = sum((n(*ix(*a)) * n(*ix(*b)) * (0.5 * (U if a[0] == b[0] else V)[a[1], b[1]]) for a, b in two(sp, no)), Operator()); x = Operator()
    if len(sp) == 2:
        u, v = sp
        for i in range(no):
            for j in range(no):
                if i != j: x = x - J * c_dag(*ix(u, i)) * c(*ix(v, i)) * c_dag(*ix(v, j)) * c(*ix(u, j)) + J * c_dag(*ix(u, i)) * c_dag(*ix(v, i)) * c(*ix(v, j)) * c(*ix(u, j))
    equal(h, d + x, 'the Kanamori Hamiltonian'); equal(dagger(h), h, 'interactions are hermitian'); conserves(h, sp, no, ix); equal(H.diagonal_part(h), d, 'the density part')
@entry
def h_rotations():
    """U' = U - 2 J: the Kanamori Hamiltonian commutes with the spin; so do all Slater Hamiltonians"""
    no = s_pick('orbitals', 1, 2); U, J = s_real('U', -8, 8), s_real('J', -8, 8); sp = ['up', 'down']; kw = {'off_diag': s_flag('off_diag')}
    if s_flag('slater'): h = H.h_int_slater(sp, no, s_array('U', (no,) * 4, -8, 8), **kw)
    else: a, b = UM.U_matrix_kanamori(no, U, J); h = H.h_int_kanamori(sp, no, a, b, J, **kw); equal(H.h_int_slater(sp, no, UM.U_matrix_kanamori(no, U, J, full_Uijkl=True), **kw), h, 'Slater and Kanamori Hamiltonians of the same tensor')
    for k in 'xyz': equal(comm(h, O.S_op(k, sp, no, **kw)), Operator(), 'rotations of the spin leave the Hamiltonian alone')
@entry
def h_slater():
    cx = s_flag('complex'); sp, no, kw, ix = setting() if not cx else (['up', 'down'], s_pick('orbitals', 1, 2), {'off_diag': True}, lambda s, o: (s, o)); U = s_array('U', (no,) * 4, -8, 8)
    if cx: p = s_pick('element', 0, no ** 4 - 1); U[tuple((p // no ** d) % no for d in range(4))] = s_cplx('z', -8, 8)
    h = H.h_int_slater(sp, no, U, complex=cx, **kw); want = Operator()
    for s, t in itertools.product(sp, sp):
        for i, j, k, l in itertools.product(*[range(no)] * 4): want = want + c_dag(*ix(s, i)) * c_dag(*ix(t, j)) * c(*ix(t, l)) * c(*ix(s, k)) * (0.5 * U[i, j, k, l])
    equal(h, want, 'the Slater Hamiltonian'); conserves(h, sp, no, ix)
@entry
def h_slater_hermitian():
    sp = ['up', 'down']; no = s_pick('orbitals', 1, 2); U = s_array('U', (no,) * 4, -8, 8); R = range(no); U = np_.array([[[[(U[i, j, k, l] + U[k, l, i, j]) / 2 for l in R] for k in R] for j in R] for i in R]); h = H.h_int_slater(sp, no, U, off_diag=True); equal(dagger(h), h, 'interactions are hermitian')
    V = s_array('V', (no,) * 4, -8, 8, True); assume(OR(V[0, 0, 0, 0].imag > 1e-6, V[0, 0, 0, 0].imag < -1e-6)); check(throws(lambda: H.h_int_slater(sp, no, V, off_diag=True), RuntimeError), 'complex elements are rejected')
@entry
def h_dump():
    """the written terms are those of the Hamiltonian"""
    sp = ['up', 'down']; no = s_pick('orbitals', 1, 2); kind = s_pick('kind', 0, 2); fs = {}; 
    def op(name, *a, **k): fs[name] = File(); return fs[name]
    vals = {}
    def val(x): return x
    H.__dict__['open'] = op
    try:
        if kind == 0:
            pos = s_pick('element', 0, no ** 4 - 1); U = np_.zeros((no,) * 4); i = tuple((pos // no ** d) % no for d in range(4)); U[i] = 3.0; h = H.h_int_slater(sp, no, U, off_diag=True, H_dump='f')
        else:
            U, V, J = np_.array([[0.0, 2.0], [2.0, 0.0]])[:no, :no], np_.array([[5.0, 7.0], [7.0, 5.0]])[:no, :no], 11.0; h = H.h_int_kanamori(sp, no, U, V, J, off_diag=True, H_dump='f') if kind == 1 else H.h_int_density(sp, no, U, V, off_diag=True, H_dump='f')
    finally: del H.__dict__['open']
    import ast; part = ''; sum_ = Operator()
    for line in fs['f'].text.split('\n')[1:]:
        if line.endswith('terms:'): part = line.split()[0]; continue
        if not line: continue
        *a, v = line.split('\t'); a = [ast.literal_eval(x) for x in a]; v = float(v)
        if kind == 0: sum_ = sum_ + 0.5 * v * c_dag(*a[0]) * c_dag(*a[1]) * c(*a[2]) * c(*a[3])
        elif part.startswith('Density'): sum_ = sum_ + 0.5 * v * n(*a[0]) * n(*a[1])
        elif part.startswith('Spin'): (s, i), (t, j) = a; sum_ = sum_ + 0.5 * v * c_dag(s, i) * c(t, i) * c_dag(t, j) * c(s, j)
        else: (s, i), (t, j) = a; sum_ = sum_ + 0.5 * v * c_dag(s, i) * c_dag(t, i) * c(t, j) * c(s, j)
    equal(sum_, h, 'the written terms add up to the Hamiltonian')
@entry
def h_parts():
    """density part and real part of any operator"""
    A = [('a', 0), ('a', 1), ('b', 0)]; ks = [s_cplx('k', -8, 8) for i in range(6)]; w = [n(*A[0]), n(*A[0]) * n(*A[1]), c_dag(*A[0]) * c(*A[1]), n(*A[2]) * c_dag(*A[0]) * c(*A[1]), n(*A[0]) * n(*A[1]) * n(*A[2]), Operator(1.0)]; o = sum((k * x for k, x in zip(ks, w)), Operator()); equal(H.diagonal_part(o), ks[0] * w[0] + ks[1] * w[1] + ks[4] * w[4] + ks[5] * w[5], 'the density part')
@entry
def h_real():
    w = [n('a', 0), c_dag('a', 0) * c('a', 1)]; ks = [s_cplx('k', -8, 8) for x in w]; o = sum((k * x for k, x in zip(ks, w)), Operator()); tol = s_choice('tol', [0, 0.5]); small = AND(*[abs(k.imag) <= tol for k in ks])
    r = None
    try: r = H.make_operator_real(o, tol)
    except RuntimeError: check(NOT(small), 'real operators are accepted'); return
    check(small, 'complex operators are rejected'); equal(r, sum((k.real * x for k, x in zip(ks, w)), Operator()), 'the real part')
@entry
def h_N_S():
    sp, no, kw, ix = setting(); equal(O.N_op(sp, no, **kw), sum((n(*ix(s, o)) for s in sp for o in range(no)), Operator()), 'the number of particles')
    if len(sp) < 2: return
    u, d = sp; R = range(no); s = {k: O.S_op(k, sp, no, **kw) for k in 'xyz+-'}; z = Operator(); P = lambda a, b: sum((c_dag(*ix(a, o)) * c(*ix(b, o)) for o in R), z)
    equal(s['z'], 0.5 * (P(u, u) - P(d, d)), 'the spin'); equal(s['+'], P(u, d), 'the spin'); equal(s['-'], P(d, u), 'the spin'); equal(s['x'], 0.5 * (P(u, d) + P(d, u)), 'the spin'); equal(s['y'], -0.5j * P(u, d) + 0.5j * P(d, u), 'the spin')
    s2 = O.S2_op(sp, no, **kw); equal(s2, s['x'] * s['x'] + s['y'] * s['y'] + s['z'] * s['z'], 'the square of the spin'); [equal(comm(s2, s[k]), z, 'the square of the spin is a scalar') for k in 'xyz']; equal(comm(s['x'], s['y']), 1j * s['z'], 'angular momentum commutators')
def lmat(no):
    l = (no - 1) / 2; return {'z': lambda i, j: (i - l) if i == j else 0, '+': lambda i, j: math.sqrt(l * (l + 1) - (j - l) * (j - l + 1)) if i == j + 1 else 0, '-': lambda i, j: math.sqrt(l * (l + 1) - (j - l) * (j - l - 1)) if i == j - 1 else 0}
@entry
def h_L():
    """spherical and cubic bases"""
    sp, no, kw, ix = setting(3); cubic = no in (1, 3) and s_flag('cubic'); kb = {'basis': 'cubic'} if cubic else {}; z = Operator(); L = {k: O.L_op(k, sp, no, **kw, **kb) for k in 'xyz+-'}; T = UM.spherical_to_cubic((no - 1) // 2) if cubic and no == 3 else np_.eye(no)
    for k, f in lmat(no).items():
        M = np_.array([[f(i, j) for j in range(no)] for i in range(no)]) * 1.0; 
        if cubic and no == 3: M = np_.dot(np_.dot(np_.conj(T), M), T.T)
        if not (cubic and no == 1): equal(L[k], sum((c_dag(*ix(s, i)) * c(*ix(s, j)) * M[i, j] for s in sp for i in range(no) for j in range(no)), z), 'the orbital momentum')
    equal(comm(L['x'], L['y']), 1j * L['z'], 'angular momentum commutators'); equal(comm(L['y'], L['z']), 1j * L['x'], 'angular momentum commutators'); equal(L['x'] + 1j * L['y'], L['+'], 'ladder operators'); equal(dagger(L['+']), L['-'], 'ladder operators'); [equal(dagger(L[k]), L[k], 'components are hermitian') for k in 'xyz']
@entry
def h_L2():
    sp, no = ['up', 'down'], s_pick('orbitals', 1, 3); kw = {'off_diag': s_flag('off_diag')}; kb = {'basis': 'cubic'} if no == 3 and s_flag('cubic') else {}; L = {k: O.L_op(k, sp, no, **kw, **kb) for k in 'xyz'}; s = {k: O.S_op(k, sp, no, **kw) for k in 'xyz'}
    equal(O.L2_op(sp, no, **kw, **kb), sum((L[k] * L[k] for k in 'xyz'), Operator()), 'the square of the orbital momentum'); equal(O.LS_op(sp, no, **kw, **kb), sum((L[k] * s[k] for k in 'xyz'), Operator()), 'the spin-orbit coupling')
@entry
def h_L_other():
    """any matrix: L -> conj(T) L transpose(T)"""
    no = 2; T = s_array('T', (2, 2), -4, 4, s_flag('cplx')); t = flat(T); k = s_choice('component', ['x', 'y', 'z', '+', '-']); f = lmat(no); f['x'] = lambda i, j: (f['+'](i, j) + f['-'](i, j)) / 2; f['y'] = lambda i, j: (f['+'](i, j) - f['-'](i, j)) / 2j; o = O.L_op(k, ['s'], no, off_diag=True, basis='other', T=T); same(flat(T), t, 'the operands are left alone')
    equal(o, sum((c_dag('s', a) * c('s', b) * sum(T[a, i].conjugate() * f[k](i, j) * T[b, j] for i in range(2) for j in range(2)) for a in range(2) for b in range(2)), Operator()), 'the orbital momentum in another basis'); check(throws(lambda: O.L_op(k, ['s'], no, off_diag=True, basis='other'), ValueError), 'missing parameters are rejected'); check(throws(lambda: O.L_op(k, ['s'], 2, off_diag=True, basis='cubic'), ValueError), 'cubic orbitals need an integer momentum')
@entry
def h_structure():
    sp = s_choice('spins', [['up', 'down'], ['b', 'a'], ['x']]); no = s_pick('orbitals', 1, 3); off = s_flag('off_diag'); r = S.set_operator_structure(sp, no, off); mk = S.get_mkind(off, None); want = [[s, no] for s in sp] if off else [['%s_%d' % (s, o), 1] for s in sp for o in range(no)]; check([list(x) for x in r] == want, 'the structure of the operators'); names = {b: k for b, k in r}
    used = [tuple(mk(s, o)) for s in sp for o in range(no)]; check(len(set(used)) == len(used) and all(0 <= i < names[b] for b, i in used) and sum(names.values()) == len(used), 'the indices fill the structure'); check(throws(lambda: S.get_mkind(None, None), ValueError), 'a convention is needed'); m = {('a', 0): ('q', 5)}; check(S.get_mkind(None, m)('a', 0) == ('q', 5), 'the indices fill the structure')
    check(throws(lambda: O.N_op(sp, no, off_diag=off, orb_names=['a']), RuntimeError), 'names of orbitals are rejected'); check(throws(lambda: H.h_int_density(sp, no, None, None, off_diag=off, orb_names=['a']), RuntimeError), 'names of orbitals are rejected')
