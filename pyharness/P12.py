"""P12: building lattices from the output of other programs, paths in the Brillouin zone."""
from pysym import *
from latmodel import *
import io, itertools, math
W = load('triqs.lattice.utils'); TB = load('triqs.lattice.tight_binding'); TBLattice = TB.TBLattice
# ---- text with symbolic numbers: a token stands for a value
TOK = {}
def tok(x):
    if not issym(x): return repr(int(x)) if isinstance(x, int) else repr(float(x))
    t = '%d.0e%d' % (len(TOK) + 7001, 200); t = 'v%d' % len(TOK); TOK[t] = x; return t
def num(t): return TOK[t] if t in TOK else float(t)
class NP:
    def __getattr__(s, n): return getattr(np_, n)
    def array(s, x, dtype=None, **k):
        if isinstance(x, list) and x and isinstance(x[0], str): return np_.array([num(t) if t in TOK else (int(t) if dtype is int else float(t)) for t in x])
        return np_.array(x, dtype=dtype, **k) if dtype is not None else np_.array(x, **k)
    def loadtxt(s, f, usecols=None, **k):
        r = [l.split() for l in f if l.split()]; r = [[num(t) for t in ([x[c] for c in usecols] if usecols else x)] for x in r]; a = np_.array(r[0] if len(r) == 1 else r); return a
W.np = NP() if not pysym.NATIVE else np_
FILES = {}; OPENED = []
def fopen(n, mode='r', **k):
    if n not in FILES: raise FileNotFoundError(n)
    OPENED.append(mode); return io.StringIO(FILES[n])
W.open = fopen
def hr(nr, nw, tag=''):
    """the text of seed_hr.dat (as Wannier90 writes it: the first orbital index runs fastest) and its content"""
    R = s_choice('vectors' + tag, [[(0, 0, 0), (1, 0, 0), (-1, 0, 0)][:nr] if nr != 2 else [(1, 0, 0), (-1, 0, 0)], [(-2, 1, 3), (0, 0, 0), (2, -1, -3)][:nr]]) if nr <= 3 else [(i - nr // 2, 0, 0) for i in range(nr)]
    deg = [s_int('deg', 1, 12) for r in R] if nr <= 3 else [1 + i % 3 for i in range(nr)]; t = s_array('H' + tag, (nr, nw, nw), -8, 8, True) if nr <= 3 else np_.array([[[complex(i, -2 * i)]] for i in range(nr)])
    s = 'written today\n   %d\n  %d\n' % (nw, nr)
    for k in range(0, nr, 15): s += '    '.join([''] + [tok(d) for d in deg[k:k + 15]]) + '\n'
    for i, r in enumerate(R):
        for n in range(nw):
            for m in range(nw): s += '%d %d %d %d %d %s %s\n' % (*r, m + 1, n + 1, tok(t[i, m, n].real), tok(t[i, m, n].imag))
    return s, R, deg, t
def ints(t): return tuple(int(x) for x in t)
@entry
def h_hr_dat():
    TOK.clear(); nr, nw = s_pick('nr', 1, 3), s_pick('nw', 1, 3); FILES['seed_hr.dat'], R, deg, t = hr(nr, nw); OPENED.clear(); h, n = W.parse_hopping_from_wannier90_hr_dat('seed_hr.dat'); check(n == nw and OPENED == ['r'], 'the number of functions'); check(len(h) == nr and [ints(k) for k in h] == R, 'the displacements of the file')
    for i, r in enumerate(R):
        check(h[r].shape == (nw, nw), 'shape')
        for a in range(nw):
            for b in range(nw): close(h[r][a, b] * deg[i], t[i, a, b], 'hopping between the orbitals of the file, divided by the degeneracy')
@entry
def h_hr_lines():
    """degeneracies over several lines"""
    TOK.clear(); nr = s_choice('nr', [14, 15, 16, 29, 30, 31, 45]); FILES['x'], R, deg, t = hr(nr, 1); h, n = W.parse_hopping_from_wannier90_hr_dat('x'); check([ints(k) for k in h] == R, 'the displacements of the file'); [close(h[r][0, 0] * deg[i], t[i, 0, 0], 'hopping between the orbitals of the file, divided by the degeneracy') for i, r in enumerate(R)]
def wout(v, unit, before, after, name='Lattice Vectors'): return 'Wannier90\n' + 'x y\n' * before + '                          %s (%s)\n' % (name, unit) + ''.join('   a_%d  %s %s %s\n' % (i + 1, *[tok(x) for x in v[i]]) for i in range(3)) + '\n  Unit Cell Volume:  1 2\n' * after
@entry
def h_wout():
    TOK.clear(); v = [[s_real('v', -8, 8) for j in range(3)] for i in range(3)]; u = s_choice('unit', ['Ang', 'Bohr']); FILES['w'] = wout(v, u, s_pick('before', 0, 2), s_pick('after', 0, 1)); r = W.parse_lattice_vectors_from_wannier90_wout('w'); f = 1.0 if u == 'Ang' else 0.5291772105638411; check(len(r) == 3 and all(isinstance(x, tuple) and len(x) == 3 for x in r), 'three vectors'); close(np_.array([list(x) for x in r]), np_.array([[x * f for x in y] for y in v]), 'the vectors in Angstrom')
    FILES['n'] = 'Wannier90\n x\n'; check(throws(lambda: W.parse_lattice_vectors_from_wannier90_wout('n'), IOError), 'files without vectors are rejected'); FILES['q'] = wout(v, 'yd', 0, 1); check(throws(lambda: W.parse_lattice_vectors_from_wannier90_wout('q'), NotImplementedError), 'other units are rejected')
@entry
def h_spin():
    nw = s_pick('nw', 1, 3); h = {r: s_array('H', (nw, nw), -8, 8, True) for r in [(0, 0, 0), (1, 0, -1)]}; was = flat(list(h.values())); g, n = W.extend_wannier90_to_spin(h, nw); check(n == 2 * nw and set(g) == set(h), 'twice the functions'); same(flat(list(h.values())), was, 'the operands are left alone')
    for r in h: check(g[r].shape == (2 * nw, 2 * nw), 'shape'); same(flat(g[r]), [h[r][i % nw, j % nw] if i // nw == j // nw else 0 for i in range(2 * nw) for j in range(2 * nw)], 'the model of each spin and nothing between them')
@entry
def h_wannier():
    """the whole conversion"""
    TOK.clear(); nw = s_pick('nw', 1, 2); sp = s_flag('spin'); R = [(0, 0, 0), (1, 0, 2), (-1, 0, -2)]; t = [s_array('H', (nw, nw), -8, 8, True) for r in R[:2]]; t[0] = (t[0] + t[0].conj().T) / 2; t.append(t[1].conj().T); deg = [s_int('deg', 1, 6), s_int('deg', 1, 6)]; deg.append(deg[1]); s = 'h\n%d\n3\n' % nw + ' '.join(tok(d) for d in deg) + '\n'
    for i, r in enumerate(R):
        for n in range(nw):
            for m in range(nw): s += '%d %d %d %d %d %s %s\n' % (*r, m + 1, n + 1, tok(t[i][m, n].real), tok(t[i][m, n].imag))
    FILES['dir/ab_hr.dat'] = s; v = [[1.5, 0.0, 0.25], [0.0, 2.0, 0.0], [0.0, -1.0, 3.0]]; FILES['dir/ab.wout'] = wout(v, 'Ang', 1, 1); N = nw * (2 if sp else 1); loc = s_flag('local'); A = s_array('A', (N, N), -8, 8, True) if loc else None
    if loc: A = A + A.conj().T; aw = flat(A)
    L = W.TB_from_wannier90('ab', 'dir/', extend_to_spin=sp, add_local=A); check(L.n_orbitals == N and L.ndim == 3, 'the number of orbitals'); same(flat(L.units), flat(np_.array(v)), 'units of the lattice'); g = {ints(k): m for k, m in L.hoppings.items()}; check(set(g) == set(R), 'the displacements of the file')
    if loc: same(flat(A), aw, 'the operands are left alone')
    for i, r in enumerate(R):
        for a in range(N):
            for b in range(N): w = t[i][a % nw, b % nw] / deg[i] if a // nw == b // nw else 0; close(g[r][a, b], w + (A[a, b] if loc and i == 0 else 0), 'every hopping at its place')
class Ptb:
    def __init__(s, no, dim): s.n = no; s._site_energies = np_.array([s_real('e', -8, 8) for i in range(no)]); s._hoppings = []; s.dim = dim
    def get_num_orbitals(s): return s.n
    def get_lat(s): return np_.array([[1.0 if i == j else 0.5 * (i > j) for j in range(s.dim)] for i in range(s.dim)])
    def get_orb(s): return [tuple([0.25 * i] * 3) for i in range(s.n)]
@entry
def h_pythtb():
    """H(R)_ij gathers the hoppings from i to j over R and the conjugates of those from j to i over -R"""
    import warnings
    d = s_pick('dim', 1, 2); no = s_pick('orbitals', 1, 2); p = Ptb(no, d); nh = s_pick('hoppings', 0, 2 if not THOROUGH else 3); V = [(0,), (1,), (-1,), (2,)] if d == 1 else [(0, 0), (1, 0), (-1, 0), (1, -1)]
    for k in range(nh): i, j = s_pick('i', 0, no - 1), s_pick('j', 0, no - 1); r = s_choice('R', V); assume(not (i == j and not any(r))); p._hoppings.append([s_cplx('h', -8, 8), i, j, np_.array(list(r)) if s_flag('array') else list(r)])
    with warnings.catch_warnings(): warnings.simplefilter('ignore'); L = W.TB_from_pythTB(p)
    w = {}
    def add(r, i, j, x): m = w.setdefault(r, {}); m[(i, j)] = m.get((i, j), 0) + x
    for i in range(no): add((0,) * d, i, i, p._site_energies[i])
    for h, i, j, r in p._hoppings: r = ints(r); add(r, i, j, h); add(tuple(-x for x in r), j, i, h.conjugate())
    g = {ints(k): m for k, m in L.hoppings.items()}; check(set(w) <= set(g), 'the displacements of the model')
    for r in g:
        for i in range(no):
            for j in range(no): same([g[r][i, j]], [w.get(r, {}).get((i, j), 0)], 'every hopping at its place')
    same(flat(L.units), flat(p.get_lat()), 'units of the lattice'); check(list(L.orbital_names) == [str(i) for i in range(no)], 'names of the orbitals'); same(flat(L.orbital_positions), [x for q in p.get_orb() for x in q], 'positions of the orbitals')
@entry
def h_path():
    """straight segments, cumulative Euclidean distance"""
    ns = s_pick('segments', 1, 3); num = s_pick('num', 1, 4 if ns < 3 else 2); hasbz = s_flag('bz'); rel = s_flag('relative'); d = 3; seg = [tuple(tuple(s_real('k', -4, 4) for i in range(d)) for e in range(2)) for s in range(ns)]; U = [[1.0, 0.0, 0.0], [0.5, 2.0, 0.0], [0.0, -1.0, 1.5]] if hasbz else [[float(i == j) for j in range(3)] for i in range(3)]
    class BZ: units = np_.array(U)
    kv, dist, ticks = W.k_space_path(seg if s_flag('tuples') else [(np_.array(a), np_.array(b)) for a, b in seg], num=num, **({'bz': BZ} if hasbz else {}), relative_coordinates=rel); check(kv.shape == (ns * num, 3) and dist.shape == (ns * num,) and ticks.shape == (ns + 1,), 'shapes'); check(ticks[0] == 0, 'the path starts at zero'); cur = 0
    for s, (a, b) in enumerate(seg):
        for j in range(num):
            x = j / (num - 1) if num > 1 else 0.0; k = [a[i] + x * (b[i] - a[i]) for i in range(3)]; ab = [sum(k[i] * U[i][c] for i in range(3)) for c in range(3)]; close(kv[s * num + j], np_.array(k if rel else ab), 'points of the path'); st = [x * sum((b[i] - a[i]) * U[i][c] for i in range(3)) for c in range(3)]; e = dist[s * num + j] - cur; check(e >= 0, 'the distance grows'); close(e * e, sum(y * y for y in st), 'Euclidean distance from the start of the segment', 1e-5)
        cur = dist[s * num + num - 1]; check(ticks[s + 1] == cur, 'ticks at the ends of the segments')
@entry
def h_path_default():
    """the distance is continuous between segments and 101 points is the default"""
    a, b = [np_.array([s_real('k', -4, 4) for i in range(3)]) for e in range(2)]; kv, dist, ticks = W.k_space_path([(a, b)]); check(kv.shape == (101, 3), 'the default number of points'); close(kv[0], a, 'points of the path'); close(kv[100], b, 'points of the path'); close(kv[50] * 2, a + b, 'points of the path'); check(ticks[1] == dist[100], 'ticks at the ends of the segments')
# ---- TB_to_sympy over a model of sympy
class Ex:
    """an expression: its value, a number of the engine"""
    is_complex = True
    def __init__(s, v): s.v = v
    def __add__(s, o): return Ex(s.v + v_(o))
    __radd__ = __add__
    def __mul__(s, o): return Ex(s.v * v_(o))
    __rmul__ = __mul__
    def rewrite(s, f): return s
    def conjugate(s): return Ex(s.v.conjugate() if issym(s.v) or isc(s.v) else s.v)
    def has(s, f): return False
    def __ne__(s, o): return False
    def __eq__(s, o): return True
    __hash__ = None
def v_(x): return x.v if isinstance(x, Ex) else x
class Mat:
    def __init__(s, v): s.v = v
    def dot(s, c): return sum((int(x) * y for x, y in zip(c, s.v)), 0)
PH = {}
def phase(n):
    """exp(-i n.k) for integer n, from the phases of the three directions"""
    r = 1
    for i, x in enumerate(n):
        z = PH['z'][i]
        for q in range(abs(x)): r = r * (z if x > 0 else z.conjugate())
    return r
class Lin:
    """an integer combination of a1k, a2k, a3k"""
    def __init__(s, n): s.n = tuple(n)
    def __mul__(s, o): return Lin([x * int(o) for x in s.n]) if not isinstance(o, Im) else ImLin(o.k, s.n)
    __rmul__ = __mul__
    def __add__(s, o): return s if isinstance(o, int) and o == 0 else Lin([a + b for a, b in zip(s.n, o.n)])
    __radd__ = __add__
class Im:
    def __init__(s, k=1): s.k = k
    def __neg__(s): return Im(-s.k)
    def __mul__(s, o): return ImLin(s.k, o.n)
class ImLin:
    def __init__(s, k, n): s.k = k; s.n = n
def spexp(x):
    n = [x.k * j for j in x.n] if isinstance(x, ImLin) else [0, 0, 0]; return Ex(phase([-j for j in n]))
stub('sympy', I=Im(), symbols=lambda *a, **k: [Lin([int(i == j) for j in range(3)]) for i in range(3)], Matrix=Mat, exp=spexp, cos='cos')
class NP2(NP):
    def zeros(s, sh, dtype=None): return np_.zeros(sh, dtype=object) if dtype is spexp else np_.zeros(sh)
    def empty_like(s, a, dtype=None): return np_.zeros(a.shape, dtype=object)
    def around(s, x, p): ROUND.append(p); return np_.array([[Ex(y) for y in r] for r in x], dtype=object) if not pysym.NATIVE else np_.array([[Ex(y) for y in r] for r in x])
ROUND = []
@entry
def h_sympy():
    """the expression is the Fourier sum of the hoppings with exp(-i k.R)"""
    import warnings
    d = s_choice('dim', [2, 3]); no = s_pick('orbitals', 1, 2); R = s_choice('R', [[(0, 0), (1, 0), (1, -2)], [(0, 1)], [(0, 0)]] if d == 2 else [[(0, 0, 0), (1, 0, -1)], [(0, 2, 0)]]); h = {}
    for r in R:
        t = s_array('t', (no, no), -8, 8, True)
        if not any(r): h[r] = (t + t.conj().T) / 2
        else: h[r] = t; h[tuple(-x for x in r)] = t.conj().T
    L = TBLattice([[1.0 if i == j else 0.25 * (i > j) for j in range(d)] for i in range(d)], h, [(0, 0, 0)] * no); W.np = NP2() if not pysym.NATIVE else NP2(); PH['z'] = [s_cplx('z', -1, 1) for i in range(3)]; p = s_pick('precision', 4, 6); ROUND.clear()
    with warnings.catch_warnings(): warnings.simplefilter('ignore'); H = W.TB_to_sympy(L, True, p)
    for i in range(no):
        for j in range(no): close(v_(H[i, j]), sum((m[i, j] * phase(tuple(r) + (0,) * (3 - d)) for r, m in h.items()), 0), 'the Fourier sum of the hoppings')
    check(all(x == p for x in ROUND), 'rounded to the requested precision')
