"""P08: initialisers of Green's functions and Dyson's equation."""
from pysym import *
from gfmodel import *
import math
FIT = {}
def fit_hermitian_tail(g, *a, **k):
    n = int(np_.prod(g.target_shape)) if g.target_shape else 1; FIT['arg'] = snap(g); FIT['tail'] = s_array('tail', (2,) + tuple(g.target_shape), -8, 8); return FIT['tail'], 0.0
def is_gf_hermitian(g, *a): return FIT.get('hermitian', True)
GFNT = sys.modules['triqs.gf.gf_fnt']; GFNT.fit_hermitian_tail = fit_hermitian_tail; GFNT.is_gf_hermitian = is_gf_hermitian
def make_hermitian(g): return g.copy()
stub('triqs.gf.gf_factories', make_hermitian=make_hermitian)
BG = load('triqs.gf.block_gf'); BlockGf = BG.BlockGf; T = load('triqs.gf.tools'); DB = load('triqs.gf.descriptor_base')
def freq(kind, pos=False):
    """a mesh whose (imaginary or real) frequencies are arbitrary"""
    if kind == 'ImFreq': return MeshImFreq(s_real('beta', 0.125, 16), s_choice('stat', ['Fermion', 'Boson']) if not pos else 'Fermion', 1)
    if kind == 'DLRImFreq': return MeshDLRImFreq(s_real('beta', 0.125, 16), 'Fermion', (-3, 0))
    return MeshReFreq(values=[s_real('w', -8, 8) for k in range(2)])
def val(p): v = p.value; return 1j * ((2 * v.n + (1 if v.statistic == 'Fermion' else 0)) * math.pi / v.beta) if isinstance(v, MF.MatsubaraFreq) else v
def eye(sh): return np_.eye(sh[0]) if sh else 1
@entry
def h_omega():
    """frequency and constants in scalar and matrix functions"""
    m = freq(s_choice('mesh', ['ImFreq', 'DLRImFreq', 'ReFreq'])); sh = s_choice('target', [(), (1, 1), (2, 2)]); g = gf(m, sh); c = s_real('c', -8, 8) if s_flag('real') else s_cplx('c', -8, 8); k = s_pick('kind', 0, 4)
    if k == 0: r = g << D.Omega; w = [val(p) * eye(sh) for p in m]
    elif k == 1: r = g << D.iOmega_n; w = [val(p) * eye(sh) for p in m]
    elif k == 2: r = g << D.Const(c); w = [c * eye(sh) for p in m]
    elif k == 3: r = g << c; w = [c * eye(sh) for p in m]
    else:
        if not sh: return
        M = s_array('M', sh, -8, 8, s_flag('cplx')); mw = flat(M); r = (g << D.Const(M)) if s_flag('const') else (g << M); w = [M for p in m]; same(flat(M), mw, 'the operands are left alone')
    check(r is g, 'the initialiser returns the function'); same(flat(g.data), flat(w), 'every point has the value of the initialiser')
@entry
def h_expr():
    """expressions of initialisers are evaluated at every point"""
    m = freq(s_choice('mesh', ['ImFreq', 'ReFreq'])); sh = s_choice('target', [(), (1, 1), (2, 2)]); g, h = gf(m, sh), gf(m.copy(), sh, 'h'); hw = h.data.copy(); c, e = s_real('c', -8, 8), s_real('e', -8, 8); k = s_pick('kind', 0, 6); I = eye(sh); W = [val(p) for p in m]; n = len(m)
    if k == 0: g << D.Omega + c; w = [(z + c) * I for z in W]
    elif k == 1: g << e - c * D.Omega; w = [(e - c * z) * I for z in W]
    elif k == 2: g << D.iOmega_n * e - c; w = [(z * e - c) * I for z in W]
    elif k == 3: g << D.Omega - h; w = [W[i] * I - hw[i] for i in range(n)]
    elif k == 4: g << h + D.Omega * c; w = [W[i] * c * I + hw[i] for i in range(n)]
    elif k == 5: assume(e != 0); g << (D.Omega + c) / e; w = [(z + c) / e * I for z in W]
    else: g << D.Function(lambda z: z * z * c * I) + e; w = [(z * z * c + e) * I for z in W]
    same(flat(g.data), flat(w), 'every point has the value of the initialiser'); unchanged(h, flat(hw))
@entry
def h_inverse():
    """the inverse of an expression"""
    m = freq(s_choice('mesh', ['ImFreq', 'ReFreq']), True); sh = s_choice('target', [(), (1, 1), (2, 2)]); g = gf(m, sh); e = s_real('e', -8, 8)
    for p in m: z = val(p) - e; assume(OR(z.real != 0, z.imag != 0))
    g << T.inverse(D.Omega - e); [close(g.data[i] * (val(p) - e), eye(sh), 'the inverse of an expression', 1e-6) for i, p in enumerate(m)]
    h = g.copy(); h << T.conjugate(D.Omega * 1.0) if False else h; f = gf(m, (2, 2), 'f'); a = f.data.copy(); same(flat(T.transpose(f).data), [x for i in range(len(m)) for x in flat(a[i].T)], 'functions of a Gf'); same(flat(T.conjugate(f).data), [x.conjugate() for x in flat(a)], 'functions of a Gf'); unchanged(f, flat(a)); x = s_real('x', 1, 8); close(T.inverse(x) * x, 1, 'functions of a Gf')
@entry
def h_function():
    """the function is called once per point with the value of the point"""
    kind = s_choice('mesh', ['ImFreq', 'ReFreq', 'ImTime', 'ReTime', 'Legendre']); m = mesh(kind, 2); sh = s_choice('target', [(), (2, 2), (2, 1), (2,)]); vals = [s_array('f', sh, -8, 8) if sh else s_cplx('f', -8, 8) for p in m]; seen = []
    def f(x): seen.append(x); return vals[len(seen) - 1]
    g = gf(m, sh); r = D.Function(f)(g); check(r is g, 'the initialiser returns the function'); check(len(seen) == len(m) and all(x is p.value or x == p.value for x, p in zip(seen, m)), 'the function is called with every value'); same(flat(g.data), flat(vals), 'every point has the value of the initialiser'); check(throws(lambda: D.Function(3)(g)), 'only functions are accepted')
    def bad(x): raise KeyError('mine')
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): check(throws(lambda: D.Function(bad)(g), KeyError), 'failures of the function are reported')
@entry
def h_mesh_type():
    """initialisers of frequency reject other meshes and leave the function alone"""
    m = mesh(s_choice('mesh', ['ImTime', 'ReTime', 'Legendre'])); sh = s_choice('target', [(), (2, 2)]); g = gf(m, sh); a = snap(g); k = s_choice('init', ['Omega', 'Const', 'SemiCircular', 'Flat']); f = {'Omega': D.Omega, 'Const': D.Const(1.0), 'SemiCircular': D.SemiCircular(1.0), 'Flat': D.Flat(1.0)}[k]
    check(throws(lambda: f(g), TypeError), 'other meshes are rejected'); unchanged(g, a); q = gf(mesh('ImFreq'), (2, 1), 'q'); b = snap(q); check(throws(lambda: q << D.Const(1.0)), 'constants need a square function'); M = s_array('M', (1, 1), -8, 8); s = gf(mesh('ImFreq'), (2, 2), 's'); check(throws(lambda: s << D.Const(M)), 'matrices of other shapes are rejected'); unchanged(q, b)
@entry(nra=1)
def h_semicircular():
    """D^2 g^2 / 4 - z g + 1 = 0 and the sign of the imaginary part"""
    kind = s_choice('mesh', ['ImFreq', 'DLRImFreq', 'ReFreq']); m = MeshReFreq(values=[s_real('w', -8, 8)]) if kind == 'ReFreq' else MeshImFreq(1 / s_real('T', 0.0625, 8), s_choice('stat', ['Fermion', 'Boson']), 1) if kind == 'ImFreq' else MeshDLRImFreq(1 / s_real('T', 0.0625, 8), 'Fermion', (-3, 0)); sh = s_choice('target', [(), (1, 1), (2, 2)]); B = s_choice('D', [1.0, 2.0, 0.75]); shift = s_flag('shift'); mu = s_real('mu', -2, 2) if shift else 0; g = gf(m, sh)
    if kind != 'ReFreq' and m.statistic == 'Boson': assume(OR(mu > B, mu < -B)) if shift else stop()
    g << (D.SemiCircular(B, mu) if shift else D.SemiCircular(B))
    for i, p in enumerate(m):
        z = val(p) + mu; x = g.data[i] if not sh else g.data[i][0, 0]
        if sh == (2, 2): same([g.data[i][1, 1], g.data[i][0, 1], g.data[i][1, 0]], [x, 0, 0], 'a function times the unit matrix')
        close(B * B * x * x / 4 - z * x + 1, 0, 'the semicircular function solves its equation', 1e-6)
        if kind == 'ReFreq' or m.statistic == 'Boson': inside = AND(z.real < B, z.real > -B); check(implies(inside, x.imag < 0), 'the sign of the imaginary part'); check(implies(NOT(inside), AND(x.imag < 1e-9, x.imag > -1e-9, x.real * B <= 2 + 1e-9, x.real * B >= -2 - 1e-9)), 'the branch that decays')
        else: check(x.imag * z.imag < 0, 'the sign of the imaginary part')
@entry
def h_str():
    check(str(D.SemiCircular(2.0, 0.5)) == 'SemiCircular(2.0, 0.5)' and str(D.Flat(2.0)) == 'Flat(2.0)' and str(D.Omega) == 'Omega', 'the names of the initialisers')
@entry
def h_semicircular_dos():
    """the density of states is positive inside of the band only: rho^2 = (2 / pi D)^2 (1 - x^2 / D^2)"""
    B, x = s_real('D', 0.25, 8), s_real('x', -16, 16); f = D.semi(B)(x) if s_flag('short') else D._SemiCircularDOS(B)(x); check(f >= 0, 'a density is positive'); i = AND(x < B, x > -B); check(implies(NOT(i), f == 0), 'a density vanishes outside of the band'); 
    if bool(i): close(f * f * B ** 4 * math.pi ** 2 / 4, B * B - x * x, 'the semicircular density')
@entry
def h_flat():
    """exp(-2 D g) = (z - D) / (z + D): modulus, branch and unit matrix"""
    kind = s_choice('mesh', ['ImFreq', 'DLRImFreq', 'ReFreq']); m = MeshReFreq(values=[s_real('w', -8, 8)]) if kind == 'ReFreq' else freq(kind, True); sh = s_choice('target', [(), (1, 1), (2, 2)]); B = s_real('D', 0.25, 4); g = gf(m, sh)
    for p in m:
        if kind == 'ReFreq': assume(OR(val(p) < B, val(p) > B)); assume(OR(val(p) < -B, val(p) > -B))
    g << (D.Flat(B) if s_flag('name') else D.Wilson(B))
    for i, p in enumerate(m):
        z = val(p); x = g.data[i] if not sh else g.data[i][0, 0]
        if sh == (2, 2): same([g.data[i][1, 1], g.data[i][0, 1], g.data[i][1, 0]], [x, 0, 0], 'a function times the unit matrix')
        if kind == 'ReFreq':
            l = uninterp('log', abs((z - B) / (z + B))) if not NATIVE else math.log(abs((z - B) / (z + B))); close(x.real * 2 * B, -l, 'the flat function'); inside = AND(z < B, z > -B); check(implies(inside, AND(x.imag * 2 * B < -math.pi + 1e-6, x.imag * 2 * B > -math.pi - 1e-6)), 'the sign of the imaginary part'); check(implies(NOT(inside), x.imag == 0), 'the sign of the imaginary part')
        else: close(x.real, 0, 'a symmetric band has no real part'); check(x.imag * z.imag < 0, 'the sign of the imaginary part'); check(AND(x.imag * 2 * B <= math.pi + 1e-9, x.imag * 2 * B >= -math.pi - 1e-9), 'the flat function')
@entry(expden=1)
def h_one_fermion():
    """-exp(-l tau) / (1 + exp(-l beta)), the function of one level in imaginary time"""
    m = MeshImTime(2.0, 'Fermion', 3); sh = s_choice('target', [(), (2, 2)]); l = s_real('l', -4, 4); g = gf(m, sh); g << D.OneFermionInTime(l); e = uninterp('exp', l) if not NATIVE else math.exp(l)
    for i, p in enumerate(m): w = -(1 / e) ** i / (1 + 1 / e / e); close(g.data[i], w * eye(sh), 'the function of one level')
    close((g.data[0] + g.data[2]), -eye(sh) * 1.0, 'the jump at zero time is one'); check(throws(lambda: D.OneFermionInTime(l)(gf(mesh('ImFreq'), (), 'h')), TypeError), 'other meshes are rejected')
@entry
def h_dyson():
    """G0^-1 - G^-1 = Sigma whichever is missing"""
    m = mesh('ImFreq', 1); sh = s_choice('target', [(), (1, 1)]); g0, g = gf(m, sh, 'G0'), gf(m, sh, 'G'); k = s_pick('missing', 0, 2)
    nz = lambda h: [assume(OR(x.real != 0, x.imag != 0)) for x in flat(h.data)]; nz(g0); nz(g); a, b = snap(g0), snap(g)
    if k == 2: s = T.dyson(G0_iw=g0, G_iw=g); [close(x * a[i] * b[i], b[i] - a[i], 'the equation of Dyson') for i, x in enumerate(flat(s.data))]; unchanged(g0, a); unchanged(g, b); return
    s = g; 
    if k == 1: [assume(OR((1 / a[i] - b[i]).real != 0, (1 / a[i] - b[i]).imag != 0)) for i in range(len(a))]; r = T.dyson(G0_iw=g0, Sigma_iw=s); [close(x * (1 - b[i] * a[i]), a[i], 'the equation of Dyson') for i, x in enumerate(flat(r.data))]
    else: [assume(OR((b[i] + 1 / a[i]).real != 0, (b[i] + 1 / a[i]).imag != 0)) for i in range(len(a))]; r = T.dyson(G_iw=g0, Sigma_iw=s); [close(x * (1 + b[i] * a[i]), a[i], 'the equation of Dyson') for i, x in enumerate(flat(r.data))]
    unchanged(g0, a); unchanged(s, b)
@entry
def h_dyson_args():
    m = mesh('ImFreq', 1); g = gf(m, (), 'g'); kw = {n: g for n in ('G0_iw', 'G_iw', 'Sigma_iw', 'other') if s_flag(n)}; assume(len(kw) != 2 or 'other' in kw); check(throws(lambda: T.dyson(**kw), ValueError), 'two of the three functions are needed')
@entry
def h_dyson_matrix():
    """products with matrices: the order matters"""
    m = mesh('ImFreq', 1); G0, S = gf(m, (2, 2), 'G0', True), gf(m, (2, 2), 'S', True); det = lambda x: x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0]; n = len(m)
    for i in range(n): assume(det(G0.data[i]) > 0.01)
    X = [np_.linalg.inv(G0.data[i]) - S.data[i] for i in range(n)]; [assume(det(x) > 0.01) for x in X]; r = T.dyson(G0_iw=G0, Sigma_iw=S); [close(np_.dot(r.data[i], X[i]), np_.eye(2), 'the equation of Dyson') for i in range(n)]
    r = T.dyson(G0_iw=G0, G_iw=S) if False else None
@entry
def h_delta():
    """delta = iw - g^-1 minus the constant of its tail"""
    m = MeshImFreq(s_real('beta', 0.125, 16), 'Fermion', 1); sh = s_choice('target', [(), (1, 1)]); g = gf(m, sh); [assume(OR(x.real != 0, x.imag != 0)) for x in flat(g.data)]; a = snap(g); FIT.clear(); block = s_flag('block'); d = T.delta(BlockGf(name_list=['up'], block_list=[g]))['up'] if block else T.delta(g); t = flat(FIT['tail'])
    for i, p in enumerate(m): close(flat(d.data)[i] * a[i], (val(p) - t[0]) * a[i] - 1, 'the hybridisation function'); close(FIT['arg'][i] * a[i], val(p) * a[i] - 1, 'the tail of the hybridisation function')
    unchanged(g, a); FIT['hermitian'] = False; check(throws(lambda: T.delta(g)), 'only hermitian functions are accepted'); FIT.clear(); check(throws(lambda: T.delta(gf(mesh('ImTime'), (), 'h')), TypeError), 'other meshes are rejected'); check(throws(lambda: T.delta(gf(m, (1,), 'v'))), 'vector functions are rejected')
@entry
def h_zero_tail():
    k = s_choice('mesh', ['ImFreq', 'ReFreq', 'ImTime', 'ReTime', 'Legendre']); sh = s_choice('target', [(), (2, 1)]); g = gf(mesh(k), sh); n = s_pick('n', -1, 3)
    if k == 'Legendre': check(throws(lambda: T.make_zero_tail(g, n)), 'other meshes are rejected'); return
    t = T.make_zero_tail(g, n); check(t.shape == (max(1, n),) + sh, 'the shape of the tail'); same(flat(t), [0] * t.size, 'a zero tail'); b = T.make_zero_tail(BlockGf(name_list=['a', 'b'], block_list=[g, gf(mesh(k), (2, 2), 'h')]), n); b = list(b); check([x.shape for x in b] == [(max(1, n),) + sh, (max(1, n), 2, 2)], 'the shape of the tail')
@entry(expden=1)
def h_make_delta():
    """sum_j V_kj S_j conj(V_lj)"""
    n, nb = s_pick('orb', 1, 2), s_pick('bath', 1, 2); V = s_array('V', (n, nb), -4, 4, s_flag('cplx')); eps = s_array('eps', (nb,), -4, 4); tau = s_flag('tau'); vw, ew = flat(V), flat(eps)
    if tau: m = MeshImTime(2.0, 'Fermion', 3); S = lambda p, e: -(1 / (uninterp('exp', e) if not NATIVE else math.exp(e))) ** p.data_index / (1 + (1 / (uninterp('exp', e) if not NATIVE else math.exp(e))) ** 2)
    else:
        m = MeshImFreq(s_real('beta', 0.125, 16), s_choice('stat', ['Fermion', 'Boson']), 1); S = lambda p, e: 1 / (val(p) - e)
        if m.statistic == 'Boson': [assume(e != 0) for e in ew]
    d = T.make_delta(V, eps, m); check(tuple(d.target_shape) == (n, n) and d.mesh == m, 'the shape of the hybridisation function')
    for i, p in enumerate(m):
        for k in range(n):
            for l in range(n): close(d.data[i, k, l], sum((V[k, j] * S(p, eps[j]) * V[l, j].conjugate() for j in range(nb)), 0), 'the hybridisation of a bath')
    same(flat(V) + flat(eps), vw + ew, 'the operands are left alone'); check(throws(lambda: T.make_delta(V, np_.zeros(nb + 1), m)), 'the number of levels must agree')
@entry
def h_make_delta_blocks():
    m = MeshImFreq(2.0, 'Fermion', 1); n = s_pick('blocks', 1, 2); Vs = [s_array('V', (1 + i, 1), -4, 4) for i in range(n)]; es = [s_array('e', (1,), -4, 4) for i in range(n)]; names = ['x', 'y'][:n] if s_flag('names') else None; b = T.make_delta(Vs, es, m, names) if names else T.make_delta(Vs, es, m); w = names or [str(i) for i in range(n)]; check(list(b.indices) == w, 'the names of the blocks'); [same(flat(b[w[i]].data), flat(T.make_delta(Vs[i], es[i], m).data), 'block by block') for i in range(n)]
    check(throws(lambda: T.make_delta(Vs, es + es, m)), 'the number of levels must agree'); check(throws(lambda: T.make_delta(Vs, es, m, ['a', 'b', 'c'])), 'the number of names must agree')
@entry
def h_text():
    """a function written as text is read back"""
    files = {}
    def savetxt(f, x, *a, **k): files[f] = np_.array(x)
    def genfromtxt(f, usecols=None, *a, **k): x = files[f]; r = x if usecols is None else x[:, list(usecols)]; return r[:, 0] if r.shape[1] == 1 else r
    old = (T.np.savetxt, T.np.genfromtxt); T.np.savetxt, T.np.genfromtxt = savetxt, genfromtxt
    try:
        n = s_pick('n', 1, 2); im = s_flag('imfreq'); m = MeshImFreq(2.0, 'Fermion', 1) if im else MeshReFreq(-1.0, 2.0, 3); g = gf(m, (n, n), 'name'); a = snap(g); T.write_gf_to_txt(g); check(set(files) == {'name_%s_%s.dat' % (i, j) for i in range(n) for j in range(n)}, 'one file per element'); unchanged(g, a)
        for i in range(n):
            for j in range(n):
                for k, p in enumerate(m): same(list(files['name_%s_%s.dat' % (i, j)][k]), [(val(p).imag if im else p.value), g.data[k, i, j].real, g.data[k, i, j].imag], 'frequency, real and imaginary part')
        if im: return
        import warnings
        with warnings.catch_warnings(): warnings.simplefilter('ignore'); h = T.read_gf_from_txt([['name_%s_%s.dat' % (i, j) for j in range(n)] for i in range(n)], 'back')
        same(flat(h.data), a, 'a function is read back'); check(h.name == 'back' and len(h.mesh) == len(m), 'a function is read back'); close([p.value for p in h.mesh], [p.value for p in m], 'the mesh is read back')
        check(throws(lambda: T.write_gf_to_txt(gf(mesh('ImTime'), (1, 1), 'h')), ValueError), 'other meshes are rejected')
    finally: T.np.savetxt, T.np.genfromtxt = old
@entry
def h_fit_legendre():
    """a function with few coefficients is fitted exactly, its anti-hermitian part is dropped"""
    import numpy as N, numpy.polynomial.legendre as leg
    order = s_pick('order', 1, 3); n = s_pick('n', 1, 2); nt = order + s_pick('more', 0, 1) + 1; beta = s_choice('beta', [1.0, 2.5]); m = MeshImTime(beta, 'Fermion', nt); c = s_array('c', (order, n, n), -4, 4, True); x = N.array([2. * k / (nt - 1) - 1. for k in range(nt)]); P = leg.legvander(x, order - 1)
    g = Gf(mesh=m, target_shape=(n, n)); 
    for k in range(nt): g.data[k] = sum(c[l] * (math.sqrt(2 * l + 1) / beta * float(P[k, l])) for l in range(order))
    old = leg.legfit
    def legfit(x, y, deg):
        A = N.linalg.pinv(leg.legvander(N.array([float(v) for v in x]), deg)); y = N.asarray(y); return np_.array([[sum((float(A[i, k]) * y[k, j] for k in range(y.shape[0])), 0.0) for j in range(y.shape[1])] for i in range(deg + 1)])
    leg.legfit = legfit
    try: block = s_flag('block'); r = T.fit_legendre(BlockGf(name_list=['a'], block_list=[g]), order)['a'] if block else T.fit_legendre(g, order)
    finally: leg.legfit = old
    check(len(r.mesh) == order and type(r.mesh) is MeshLegendre and tuple(r.target_shape) == (n, n), 'the shape of the fit')
    for l in range(order):
        for i in range(n):
            for j in range(n): close(r.data[l, i, j], (c[l, i, j] + c[l, j, i].conjugate()) / 2, 'the coefficients are found', 1e-5)
@entry
def h_bath():
    """the minimiser is given the documented norm, its result is returned sorted by energy with its own hybridisation"""
    import scipy.optimize as so, io, contextlib
    n = s_pick('orb', 1, 2); nb = s_pick('bath', 1, 2); cplx = s_flag('cplx'); scalar = n == 1 and s_flag('scalar'); m = MeshImFreq(2.0, 'Fermion', 1); g = gf(m, () if scalar else (n, n), 'd'); Gf.is_gf_real_in_tau = lambda s, *a: True; rec = {}; w0 = snap(g)
    kind = s_pick('V0', 0, 1); V0 = 0.5 if kind == 0 else s_array('V0', (n, nb), -4, 4, cplx and s_flag('complex V0')); e0 = [0.5 * k - 1 for k in range(nb)] if s_flag('eps list') else 3.0
    def minimize(f, x0, **k):
        rec['x0'] = flat(x0); X = s_array('X', (len(rec['x0']),), -4, 4); rec['x'] = X; rec['norm'] = f(X); return types.SimpleNamespace(x=X, success=True, nit=1, fun=0.0, message='')
    old, on = so.minimize, T.np.linalg.norm; so.minimize = minimize; T.np.linalg.norm = lambda a: rec.setdefault('diff', flat(a)) and 3.0
    try:
        with contextlib.redirect_stdout(io.StringIO()): V, e, d = T.discretize_bath(g, nb, e0, V0, cmplx=cplx)
    finally: so.minimize = old; T.np.linalg.norm = on
    nv = n * nb * (2 if cplx else 1); check(len(rec['x0']) == nv + nb, 'the start of the search'); w = [0.5] * (n * nb) if kind == 0 else flat(V0); same(rec['x0'][:nv], [y for x in w for y in (x.real, x.imag)] if cplx else w, 'the start of the search'); same(rec['x0'][nv:], e0 if isinstance(e0, list) else [-3.0 + 6.0 * k / max(1, nb - 1) for k in range(nb)], 'the start of the search')
    X = flat(rec['x']); VX = np_.array([X[2 * i] + 1j * X[2 * i + 1] for i in range(n * nb)] if cplx else X[:nv]).reshape((n, nb)); EX = X[nv:]; check(all(bool(e[k] <= e[k + 1]) for k in range(nb - 1)), 'levels are sorted')
    perm = [[0]] if nb == 1 else [[0, 1], [1, 0]]; eq = lambda x, y: bool(abs(x - y) < 1e-9) if NATIVE else AND(x.real == y.real, x.imag == y.imag); check(OR(*[AND(*[eq(e[k], EX[p[k]]) for k in range(nb)], *[eq(V[i, k], VX[i, p[k]]) for i in range(n) for k in range(nb)]) for p in perm]), 'hoppings stay with their level')
    dd = T.make_delta(V, e, m); same(flat(d.data), flat(dd.data), 'the hybridisation of the result'); check(tuple(d.target_shape) == (() if scalar else (n, n)), 'the shape of the result'); ds = T.make_delta(VX, np_.array(EX), m); close(rec['diff'], [x - y for x, y in zip(flat(ds.data), w0)], 'the norm of the search'); close(rec['norm'], 3 / math.sqrt(len(m)), 'the norm of the search')
