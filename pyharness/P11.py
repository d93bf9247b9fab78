"""P11: superlattices and tight-binding lattices."""
from pysym import *
from latmodel import *
import itertools
TB = load('triqs.lattice.tight_binding'); TBLattice = TB.TBLattice; SL = load('triqs.lattice.super_lattice'); TBSuperLattice = SL.TBSuperLattice; LP = load('triqs.lattice.point').LatticePoint
def det(M): return M[0][0] if len(M) == 1 else M[0][0] * M[1][1] - M[0][1] * M[1][0] if len(M) == 2 else sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3))
def units(d):
    """superlattice vectors (rows)"""
    if d == 1: M = [[s_pick('M', -3, 3)]]
    elif d == 2: M = [[s_pick('M%d%d' % (i, j), -2 if THOROUGH else -1, 2) for j in range(2)] for i in range(2)]
    else: M = s_choice('M3', [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[-1, 0, 0], [0, -2, 0], [0, 0, -1]], [[1, 0, 2], [0, 1, 0], [0, 1, -1]]])
    if det(M) == 0 or abs(det(M)) > 6: stop()
    return M
HOPS = {1: [(0,), (1,), (3,)], 2: [(0, 0), (1, 0), (2, -1)], 3: [(0, 0, 0), (1, 0, -1)]}
def base(d, no=1, cplx=True):
    """hoppings with t(-r) the adjoint of t(r)"""
    h = {}
    for r in HOPS[d]:
        t = s_array('t', (no, no), -8, 8, cplx)
        if not any(r): t = (t + t.conj().T) / 2; h[r] = t
        else: h[r] = t; h[tuple(-x for x in r)] = t.conj().T
    return h
def lattice(d, no, h, **k): return TBLattice([[1.0 if i == j else 0.25 * (i + 1) for j in range(d)] for i in range(d)], h, [tuple(s_real('pos', -1, 1) for i in range(3)) for o in range(no)], ['o%d' % o for o in range(no)], **k)
def ints(t): return tuple(int(x) for x in t)
def mul(M, R): d = len(M); return tuple(sum(M[i][j] * R[i] for i in range(d)) for j in range(d))
def expect(M, CS, h, no, internal=True):
    """the hoppings between all sites of the cell 0 and of the cell R"""
    n = len(CS); d = len(M); w = {}
    for (a, x), (b, y) in itertools.product(enumerate(CS), repeat=2):
        for R in itertools.product(range(-6, 7), repeat=d) if d < 3 else itertools.product(range(-3, 4), repeat=3):
            m = mul(M, R); r = tuple(m[i] + y[i] - x[i] for i in range(d))
            if r in h: w.setdefault(R, {}).update({(a + n * i, b + n * j): h[r][i, j] if internal or any(R) else 0 for i in range(no) for j in range(no)})
    return w
def matches(F, w, N):
    check(set(ints(R) for R in F) == set(w), 'exactly the expected displacements')
    for R, m in F.items(): check(m.shape == (N, N), 'shape'); same(flat(m), [w[ints(R)].get((i, j), 0) for i in range(N) for j in range(N)], 'every hopping at its place')
def built(d, no, **k):
    M = units(d); h = base(d, no); L = lattice(d, no, h); return M, h, L, TBSuperLattice(L, M, **k)
@entry
def h_fold_1d(): fold(1)
@entry
def h_fold_2d(): fold(2)
@entry
def h_fold_3d(): fold(3)
def fold(d):
    no = s_pick('orbitals', 1, 2) if d == 1 else 1; internal = not s_flag('remove internal'); M, h, L, S = built(d, no, remove_internal_hoppings=not internal); CS = [ints(c) for c in S.cluster_sites()]; n = abs(det(M)); check(len(CS) == n and len(set(CS)) == n, 'the sites of the cluster'); check(S.Ncluster_sites == n and S.Norb == n * no and S.n_orbitals == n * no, 'the number of sites')
    matches(S.hoppings, expect(M, CS, h, no, internal), n * no); same(flat(S.units), [sum(M[i][k] * L.units[k, j] for k in range(d)) for i in range(d) for j in range(d)], 'units of the superlattice')
    want = []
    for p in L.orbital_positions:
        for c in CS: x = L.lattice_to_real_coordinates(c); want += [p[i] + x[i] for i in range(3)]
    same(flat(S.orbital_positions), want, 'positions of the orbitals'); nm = S.orbital_names; check(len(nm) == n * no and len(set(nm)) == n * no, 'the orbitals have different names')
    if n > 1 and no > 1: check(nm == ['%d_%s' % (s + 1, o) for o in L.orbital_names for s in range(n)], 'names of the orbitals')
@entry
def h_coordinates():
    """lattice coordinates <-> (cell, site)"""
    d = s_pick('dim', 1, 2); M, h, L, S = built(d, 1); CS = [ints(c) for c in S.cluster_sites()]; x = [s_int('x', -9, 9) for i in range(d)]; R, a = S.change_coordinates_L_to_SL(np_.array(x)); check(0 <= a < len(CS), 'a site of the cluster'); m = mul(M, list(R)); same([m[i] + CS[a][i] for i in range(d)], x, 'cell and site give the point'); same(flat(S.change_coordinates_SL_to_L(R, a)), x, 'the inverse change of coordinates')
    Q = [s_int('Q', -4, 4) for i in range(d)]; b = s_pick('site', 0, len(CS) - 1); y = S.change_coordinates_SL_to_L(tuple(Q), b); m = mul(M, Q); same(flat(y), [m[i] + CS[b][i] for i in range(d)], 'cell and site give the point'); R2, a2 = S.change_coordinates_L_to_SL(y); check(a2 == b, 'the inverse change of coordinates'); same(list(R2), Q, 'the inverse change of coordinates')
@entry
def h_pack():
    no = s_pick('orbitals', 1, 2); M, h, L, S = built(1, no); n = abs(det(M)); s, o = s_int('site', 0, n - 1), s_int('orbital', 0, no - 1); k = S.pack_index_site_orbital(s, o); check(AND(k >= 0, k < n * no), 'packed index'); a, b = S.unpack_index_site_orbital(k); check(AND(a == s, b == o), 'unpacking inverts packing'); k2 = s_int('k', 0, n * no - 1); a, b = S.unpack_index_site_orbital(k2); check(S.pack_index_site_orbital(a, b) == k2, 'packing inverts unpacking')
@entry
def h_sites():
    """cluster sites that are given, in any order and as any sequence"""
    d = s_pick('dim', 1, 2); M = [[3]] if d == 1 else s_choice('M', [[[2, 0], [0, 1]], [[1, 1], [-1, 1]], [[1, 1], [1, -1]]]); h = base(d); L = lattice(d, 1, h); auto = [ints(c) for c in TBSuperLattice(L, M).cluster_sites()]; p = list(s_choice('order', list(itertools.permutations(auto)))); k = s_choice('kind', [lambda c: [list(x) for x in c], lambda c: [tuple(x) for x in c], lambda c: tuple(tuple(x) for x in c), lambda c: np_.array([list(x) for x in c])]); g = k(p); S = TBSuperLattice(L, M, cluster_sites=g)
    check([ints(c) for c in S.cluster_sites()] == p, 'the sites that were given'); matches(S.hoppings, expect(M, p, h, 1), len(p)); check(throws(lambda: TBSuperLattice(L, M, cluster_sites=p[:-1])), 'the number of sites is checked')
@entry
def h_fold():
    """functions on the lattice: objects of other types, another number of displacements, create_zero"""
    M, h, L, S = built(1, 1); n = S.Ncluster_sites; CS = [ints(c) for c in S.cluster_sites()]; f = {(k,): s_array('f', (2, 2), -8, 8) for k in s_choice('points', [[0], [1, 2], [-5, 0, 4]])}; was = flat(list(f.values())); S.Norb = 2 * n; made = []
    def zero(): z = np_.zeros((2 * n, 2 * n), dtype=float); made.append(z); return z
    F = S.fold(f, s_flag('remove') and 'x' == 'y', zero) if s_flag('create') else S.fold(f); matches(F, expect(M, CS, f, 2), 2 * n); same(flat(list(f.values())), was, 'the operands are left alone'); check(not made or sorted(map(id, made)) == sorted(map(id, F.values())), 'one zero per displacement')
@entry
def h_copies():
    """superlattices can be pickled and copied"""
    d = s_pick('dim', 1, 2); rm = s_flag('remove'); M = [[2]] if d == 1 else [[1, 1], [-1, 1]]; h = base(d); L = lattice(d, 1, h); S = TBSuperLattice(L, M, remove_internal_hoppings=rm); f, a = S.__reduce__()[:2]; C = f(*a); check(isinstance(C, TBSuperLattice) and C.Ncluster_sites == S.Ncluster_sites and list(C.cluster_sites()) == list(S.cluster_sites()), 'the copy is the superlattice'); matches(C.hoppings, {ints(R): {(i, j): m[i, j] for i in range(2) for j in range(2)} for R, m in S.hoppings.items()}, 2)
    check(throws(lambda: TBSuperLattice(L, [[0] * d] * d)), 'dependent vectors are rejected'); check(throws(lambda: TBSuperLattice(L, [[1] * (d + 1)] * (d + 1)), ValueError), 'vectors of another dimension are rejected'); check(throws(lambda: TBSuperLattice(h, M), ValueError), 'only lattices are accepted'); str(repr(S))
@entry
def h_lattice():
    """the interface of TBLattice"""
    import warnings
    d = s_pick('dim', 1, 3); no = s_pick('orbitals', 1, 2); h = base(d, no); k = s_pick('how', 0, 2); u = [[1.0 if i == j else 0.25 * (i + 1) for j in range(d)] for i in range(d)]; pos = [tuple(s_real('pos', -1, 1) for i in range(3)) for o in range(no)]; names = ['a', 'b'][:no]
    with warnings.catch_warnings(): warnings.simplefilter('ignore'); L = TBLattice(u, h, pos, names) if k == 0 else TBLattice(units=u, hopping=h, orbital_positions=pos) if k == 1 else TBLattice.__factory_from_dict__('TBLattice', TBLattice(u, h, pos, names).__reduce_to_dict__())
    check(L.ndim == d and L.n_orbitals == no, 'dimensions'); same(flat(L.units), flat(np_.array(u)), 'units'); check(list(L.orbital_names) == (names if k != 1 else [''] * no), 'names of the orbitals'); same(flat(L.orbital_positions), [x for p in pos for x in p], 'positions of the orbitals'); g = L.hoppings; check(set(map(ints, g)) == set(h), 'hoppings of the lattice'); [same(flat(m), flat(h[ints(r)]), 'hoppings of the lattice') for r, m in g.items()]
    check(not (L == 3), 'comparison with other objects')
@entry
def h_point():
    """arithmetic of lattice points"""
    d = s_pick('dim', 1, 3); L = lattice(d, 1, base(d)); B = L.tb; B.ndim = d; i, j = [s_int('i', -9, 9) for k in range(d)], [s_int('j', -9, 9) for k in range(d)]; p, q = LP(list(i), B), LP(list(j), B); val = lambda x: flat(L.lattice_to_real_coordinates(x)); same(flat(p.value), val(i), 'value of a point'); s = p + q; same(list(s.index), [a + b for a, b in zip(i, j)], 'sum of points'); same(flat(s.value), val([a + b for a, b in zip(i, j)]), 'sum of points'); m = p - q; same(list(m.index), [a - b for a, b in zip(i, j)], 'difference of points'); same(list((-p).index), [-a for a in i], 'the opposite point'); same(list(p.index) + list(q.index), i + j, 'the operands are left alone')
    c = s_real('c', 1, 8); same(flat(p * c), [x * c for x in val(i)], 'multiples of a point'); same(flat(c * p), [x * c for x in val(i)], 'multiples of a point'); close(p / c * c, np_.array(val(i)), 'multiples of a point'); v = s_array('v', (3,), -8, 8); same(flat(p + v), [a + b for a, b in zip(val(i), flat(v))], 'a point and a vector'); same(flat(p - v), [a - b for a, b in zip(val(i), flat(v))], 'a point and a vector'); check(len(p) == d, 'length'); k = s_pick('k', 0, 2); check(p[k] == val(i)[k], 'components of a point'); same(list((q - p).index), [b - a for a, b in zip(i, j)], 'difference of points')
    same(flat(p.__rsub__(v)), [b - a for a, b in zip(val(i), flat(v))], 'a vector minus a point'); same(flat(p.__radd__(v)), [b + a for a, b in zip(val(i), flat(v))], 'a vector plus a point')
