"""P14: sums over the Brillouin zone."""
from pysym import *
from invmodel import *
sys.modules['triqs.gf'].__all__ = ['iOmega_n', 'Gf', 'MeshImFreq', 'BlockGf', 'inverse']
BlockGf = BG.BlockGf; TBM = load('triqs.lattice.tight_binding'); TBLattice = TBM.TBLattice
SK = load('triqs.sumk.sumk_discrete').SumkDiscrete; SL = load('triqs.sumk.sumk_discrete_from_lattice').SumkDiscreteFromLattice; BP = load('triqs.lattice.bz_patch'); BZPatch = BP.BZPatch
CALLS = []
class Lat(TBLattice):
    """a lattice whose Fourier transform is an arbitrary function of the momentum"""
    def __init__(s, d, no): s.d = d; s.no = no; s.seen = []
    ndim = property(lambda s: s.d); n_orbitals = property(lambda s: s.no); orbital_names = property(lambda s: ['o%d' % i for i in range(s.no)])
    def fourier(s, k): s.seen.append(np_.array(k, copy=True)); s.h = s_array('eps', (len(k), s.no, s.no), -4, 4, True); return s.h.copy()
def sums(kind):
    d, no = s_pick('dim', 1, 2), s_pick('orbitals', 1, 2); np = 2 if d == 1 or not THOROUGH else 3; L = Lat(d, no); S = SL(L, n_points=np); nk = np ** d; eps = L.h
    if s_flag('weights'): S.bz_weights[...] = s_array('w', (nk,), 0, 1) if not pysym.NATIVE else s_array('w', (nk,), 0, 1)
    w = flat(S.bz_weights); blocks = s_choice('blocks', [['up'], ['up', 'down']]); m = mesh('ImFreq', 1); mu = s_real('mu', -4, 4); G0 = BlockGf(name_list=blocks, block_list=[gf(m, (no, no), 'S') for b in blocks], make_copies=False); sw = {b: snap(g) for b, g in G0}; kw = {}
    hat = s_flag('epsilon_hat')
    if hat: kw['epsilon_hat'] = lambda e: e * 2.0 + np_.eye(no)
    field = s_pick('field', 0, 2) if kind == 0 else 0; F = None
    if field == 1: F = [s_array('F', (no, no), -4, 4) for b in blocks]
    if field == 2: F = BlockGf(name_list=blocks, block_list=[gf(m, (no, no), 'F') for b in blocks], make_copies=False)
    if field: kw['field'] = F
    A, B = s_array('A', (no, no), -4, 4), s_array('B', (no, no), -4, 4); seen = []
    def sk(k): seen.append(flat(k)); r = G0.copy(); r += [A * 1.0 * float(k[0])] * len(blocks); return r
    def ske(k, e): seen.append((flat(k), flat(e))); r = G0.copy(); r += [np_.dot(B, e)] * len(blocks); return r
    Sg = [G0, sk, ske][kind]; p = s_pick('nodes', 1, 2); res = [BlockGf(name_list=blocks, block_list=[gf(m, (no, no), 'r') for b in blocks], make_copies=False) for i in range(p)] if s_flag('result') else None
    if kind: kw['mu'] = mu
    out = parallel(lambda: S(Sg, **({} if kind else {'mu': mu}), **kw, **({'result': res[RANK[0]]} if res else {})), p)
    if res: check(all(a is b for a, b in zip(out, res)), 'the result is computed in place')
    check(len(INV) == nk * len(m) * len(blocks), 'one inverse per point, block and frequency'); pos = 0; want = {b: [0] * len(sw[b]) for b in blocks}; kp = S.bz_points
    for i in range(nk):
        e = eps[i] * 2.0 + np_.eye(no) if hat else eps[i]
        for ib, b in enumerate(blocks):
            for k, pt in enumerate(m):
                a, y = INV[pos]; pos += 1; s = G0[b].data[k]; s = s + A * float(kp[i, 0]) if kind == 1 else s + np_.dot(B, eps[i]) if kind == 2 else s; z = 1j * ((2 * pt.value.n + 1) * math.pi / pt.value.beta); x = (z + mu) * np_.eye(no) - e - s
                if field: x = x - (F[ib] if field == 1 else F[b].data[k])
                close(np_.array(a), np_.array(flat(x)), 'i omega + mu - epsilon - field - Sigma')
                for j, v in enumerate(flat(y)): want[b][k * no * no + j] = want[b][k * no * no + j] + w[i] * v
    for b in blocks: close(np_.array([sum((flat(o[b].data)[j] for o in out), 0) for j in range(len(sw[b]))]), np_.array(want[b]), 'the weighted sum of the inverses'); unchanged(G0[b], sw[b])
    same(flat(S.hopping), flat(eps), 'the operands are left alone')
@entry
def h_sum(): sums(0)
@entry
def h_sum_k(): sums(1)
@entry
def h_sum_k_eps(): sums(2)
@entry
def h_grid():
    """the regular grid: equal weights, and the average of the hopping over the zone is the local one"""
    d = s_pick('dim', 1, 3); n = s_pick('n', 1, 5 if d == 1 else 3 if d == 2 else 2); z = (0,) * d; R = [r for r in __import__('itertools').product(range(-2, 3), repeat=d) if any(r)][:6 if d > 1 else 4]; R = [r for r in R] + [tuple(-x for x in r) for r in R]; R = list(dict.fromkeys(R)); h = {}
    for r in R:
        q = tuple(-x for x in r)
        if q in h: h[r] = h[q].conj().T
        else: h[r] = s_array('t', (2, 2), -4, 4, True)
    t = s_array('t0', (2, 2), -4, 4, True); h[z] = t + t.conj().T; L = TBLattice([[1.0 if i == j else 0.25 * (i > j) for j in range(d)] for i in range(d)], h, [(0, 0, 0)] * 2); S = SL(L, n_points=n); nk = n ** d; check(S.n_kpts() == nk and S.bz_points.shape == (nk, d) and S.hopping.shape == (nk, 2, 2), 'the number of points'); close(np_.array(flat(S.bz_weights)), np_.array([1.0 / nk] * nk), 'the weights add up to one'); close(sum(flat(S.bz_weights)), 1.0, 'the weights add up to one')
    sh = (n % 2) * 0.5; pts = sorted(tuple(round((float(x) * n - sh)) % n for x in k) for k in S.bz_points); check(len(set(pts)) == nk and all(-0.5 < x <= 0.5 + 1e-12 for x in flat(S.bz_points)), 'every point of the grid once'); [close(S.hopping[i], L.fourier(S.bz_points[i]), 'the hopping at every point') for i in range(min(nk, 9))]
    loc = sum(S.hopping[i] * S.bz_weights[i] for i in range(nk)); alias = sum((m * ((-1) ** (sum(r) // n * (n % 2) * 1) if n % 2 else 1) for r, m in h.items() if all(x % n == 0 for x in r)), np_.zeros((2, 2))); close(loc, alias, 'the average of the hopping over the zone')
@entry
def h_shift():
    """t(k+Q), recomputed grids"""
    d = s_pick('dim', 1, 2); L = Lat(d, 1); S = SL(L, n_points=2); k0 = flat(S.bz_points); Q = [s_real('Q', -1, 1) for i in range(d)]; n = s_pick('n', 2, 3); kind = s_pick('kind', 0, 2); S.Recompute_Grid(n, Q=[tuple(Q), list(Q), np_.array(Q)][kind]); P = SL(Lat(d, 1), n_points=n); nk = n ** d; check(S.n_kpts() == nk, 'the number of points'); want = [P.bz_points[i, j] + Q[j] for i in range(nk) for j in range(d)]; same(flat(S.bz_points), want, 'the shifted grid'); same(flat(L.seen[-1]), want, 'the hopping is computed at the shifted points'); same(flat(S.hopping), flat(L.h), 'the hopping at every point'); close(np_.array(flat(S.bz_weights)), np_.array([1.0 / nk] * nk), 'the weights add up to one')
    f, a = S.__reduce__()[:2]; C = f(*a); check(C.n_kpts() == nk, 'copies have the same grid')
@entry
def h_patch_weight():
    """polygons are cut in triangles of their area"""
    np = s_pick('points', 3, 5); cv = {3: [(0, 0), (2, 0), (1, 2)], 4: [(0, 0), (2, 0), (3, 2), (0, 1)], 5: [(0, 0), (2, 0), (3, 2), (1, 3), (-1, 1)]}[np]; c, s = s_real('scale', 0.125, 2), s_real('shift', -2, 2); P = [(x * c + s, y * c - s) for x, y in cv]; P = P[::-1] if s_flag('orientation') else P; two = s_flag('two'); b = BZPatch('p', [P] + ([[(5.0, 5.0), (6.0, 5.0), (5.0, 7.0)]] if two else [])); ar = abs(sum(cv[i][0] * cv[(i + 1) % np][1] - cv[i][1] * cv[(i + 1) % np][0] for i in range(np))) / 2; nt = np - 2 + (1 if two else 0); check(len(b._weights) == nt and len(b._triangles) == 3 * nt, 'the triangles of the polygon'); close(b.weight, ar * c * c + (1.0 if two else 0), 'the area of the polygon'); close(sum(b._weights), b.weight, 'the area of the polygon')
    for i in range(nt): A, B, C = b._triangles[3 * i:3 * i + 3]; x = (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0]); close(4 * b._weights[i] * b._weights[i], x * x, 'the area of the triangles'); check(all(any(q is v or q == v for v in P) for q in (A, B, C)) or i == nt - 1 and two, 'the corners of the polygon')
    check(b.name == 'p', 'name')
@entry
def h_patch_sum():
    """points of a patch: centres of equal triangles"""
    L = Lat(2, 1); sc = s_real('scale', 0.125, 2); sh = s_flag('square'); P = [(0.0, 0.0), (sc, 0.0), (sc, sc)] + ([(0.0, sc)] if sh else []); b = BZPatch('p', [P] if not s_flag('two') else [P, [(5.0, 5.0), (6.0, 5.0), (5.0, 7.0)]]); n = s_pick('n', 1, 3); S = SL(L, patch=b, n_points=n); nt = len(b._weights); nk = nt * n * n; check(S.n_kpts() == nk, 'the number of points'); close(sum(flat(S.bz_weights)), 1.0, 'the weights add up to one'); W = sum(b._weights); k = S.bz_points
    for i in range(nt):
        A, B, C = [[x for x in q] for q in b._triangles[3 * i:3 * i + 3]]; [close(S.bz_weights[i * n * n + j] * W * n * n, b._weights[i], 'weights in proportion to the area') for j in range(n * n)]
        for c in range(2): close(sum(k[i * n * n + j, c] for j in range(n * n)) / (n * n), (A[c] + B[c] + C[c]) / 3, 'the points are the centres of equal triangles')
        if n == 2: close(sum(k[i * 4 + j, 0] * k[i * 4 + j, 0] for j in range(4)), sum(((A[0] * a + B[0] * bb + C[0] * cc) / 6) ** 2 for a, bb, cc in [(4, 1, 1), (1, 4, 1), (1, 1, 4), (2, 2, 2)]), 'the points are the centres of equal triangles')
    same(flat(L.seen[-1]), flat(k), 'the hopping is computed at the points'); same(flat(S.hopping), flat(L.h), 'the hopping at every point')
@entry
def h_reject():
    L = Lat(1, 1); S = SL(L, n_points=2); m = mesh('ImFreq', 1); g = gf(m, (1, 1), 'S'); check(throws(lambda: S(3), AssertionError), 'only BlockGf or functions are accepted'); two = BlockGf(name_list=['a'], block_list=[gf(m, (2, 2), 'T')]); check(throws(lambda: S(two), AssertionError), 'blocks of other sizes are rejected'); check(throws(lambda: SL(3), AssertionError), 'only lattices are accepted'); check(throws(lambda: SL(L, method='x'), AssertionError), 'other methods are rejected'); mixed = BlockGf(name_list=['a', 'b'], block_list=[g, gf(m, (2, 2), 'T')]); check(throws(lambda: S(mixed), AssertionError), 'blocks of other sizes are rejected')
