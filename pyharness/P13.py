"""P13: densities of states and Hilbert transforms."""
from pysym import *
from invmodel import *
import io
DOS, DOSFromFunction = DOSM.DOS, DOSM.DOSFromFunction; sys.modules['triqs.dos'].DOSFromFunction = DOSFromFunction
for n in ('iOmega_n', 'Gf', 'MeshImFreq'): setattr(sys.modules['triqs.gf'], n, {'iOmega_n': D.iOmega_n, 'Gf': Gf, 'MeshImFreq': MeshImFreq}[n])
sys.modules['triqs.gf'].__all__ = ['iOmega_n', 'Gf', 'MeshImFreq']
HTM = load('triqs.dos.hilbert_transform'); HilbertTransform = HTM.HilbertTransform
def table(n, lo=0, uniform=None):
    """an increasing table of energies and a density of states"""
    uni = s_flag('uniform') if uniform is None else uniform; e = [s_real('e', -4, 4)]
    if uni: d = s_real('de', 0.0625, 2); e += [e[0] + d * i for i in range(1, n)]
    else:
        for i in range(1, n): e.append(e[-1] + s_real('de', 0.0625, 2))
    return np_.array(e), np_.array([s_real('rho', lo, 8) for i in range(n)])
def integral(e, r, mu):
    """of the tabulated values below mu, with the average over the interval mu lies in"""
    t = 0
    for i in range(len(e) - 1):
        if mu >= e[i + 1]: t = t + (e[i + 1] - e[i]) * (r[i] + r[i + 1]) / 2
        elif mu >= e[i]: t = t + (mu - e[i]) * (r[i] + r[i + 1]) / 2
    return t
@entry
def h_density():
    n = s_pick('n', 2, 4 if not THOROUGH else 6); e, r = table(n); d = DOS(e, r, 'd'); mu = s_real('mu', -16, 16); x = d.density(mu); close(x, integral(e, r, mu), 'the integral below the chemical potential', 1e-6); check(d.name == 'd', 'name'); same(flat(d.eps), flat(e), 'the table'); same(flat(d.rho), flat(r), 'the table')
@entry
def h_monotonic():
    n = s_pick('n', 2, 3); e, r = table(n, 0, True); d = DOS(e, r); mu, dm = s_real('mu', -16, 16), s_real('dm', 0, 8); a, b = d.density(mu), d.density(mu + dm); check(b >= a - 1e-9, 'the density grows with the chemical potential'); check(a >= -1e-9, 'the density is not negative'); check(implies(mu < e[0], a == 0), 'nothing below the band'); close(d.density() - d.density(0.0), 0, 'the default chemical potential')
@entry
def h_table():
    e, r = table(s_pick('n', 2, 3)); d = DOS(e, r, 'nm'); c = [d.copy(), DOS(*d.__reduce__()[1]), DOS.__factory_from_dict__('nm', d.__reduce_to_dict__())][s_pick('how', 0, 2)]; same(flat(c.eps) + flat(c.rho), flat(e) + flat(r), 'the copy is the table'); check(c.name == 'nm', 'name'); d.eps[0] = 0.0; d.rho[0] = 1.0; same(flat(c.eps) + flat(c.rho), flat(e) + flat(r), 'the copy is independent') if c.eps is not d.eps else None; same(flat(DOS(list(e), list(r)).eps), flat(e), 'the table'); check(throws(lambda: DOS(e, r[:-1]), AssertionError), 'other lengths are rejected'); check(throws(lambda: DOS([[1.0]], [1.0]), RuntimeError), 'tables are one-dimensional'); p = c._plot_({})[0]; same(flat(p['xdata']) + flat(p['ydata']), flat(e) + flat(r), 'the curve'); str(repr(d))
@entry
def h_from_function():
    n = s_pick('n', 2, 5); a = s_real('a', -4, 4); b = a + s_real('w', 0.5, 4); c = s_real('c', -2, 2); f = lambda x: x * x * c + x; d = DOSFromFunction(f, a, b, n, 'fn'); check(len(d.eps) == n and d.name == 'fn', 'number of points'); close(d.eps, np_.array([a + (b - a) * i / (n - 1) for i in range(n)]), 'equidistant points of the interval'); same(flat(d.rho), [f(x) for x in d.eps], 'the function at every point'); k, v = d.__reduce__()[:2]; q = k(*v); same(flat(q.eps) + flat(q.rho), flat(d.eps) + flat(d.rho), 'the copy is the table'); check(throws(lambda: DOSFromFunction(3, a, b), AssertionError), 'only functions are accepted'); check(len(DOSFromFunction(f, a, b).eps) == 100, 'the default number of points')
@entry
def h_from_file():
    """columns of the file"""
    import builtins
    no, n = s_pick('orbitals', 1, 2), s_pick('n', 2, 3); v = s_array('v', (n, no + 1), -8, 8); blank = s_pick('blank', 0, 1)
    DOSM.open = lambda name, *a: io.StringIO('\n' * blank + ('x ' * (no + 1) + '\n') * n)
    class NP:
        def __getattr__(s, k): return getattr(np_, k)
        def fromfile(s, name, sep=''): check(name == 'dos.dat' and sep == ' ', 'the file is read'); return np_.array(flat(v))
    DOSM.numpy = NP()
    one = s_pick('single', 0, no); r = DOSM.dos_from_file('dos.dat', 'q', one or None); r = r if not one else [r]; check(len(r) == (1 if one else no), 'number of orbitals')
    for i, d in enumerate(r): k = one - 1 if one else i; same(flat(d.eps), flat(v[:, 0]), 'energies of the file'); same(flat(d.rho), flat(v[:, k + 1]), 'column of the orbital'); check(d.name == 'q', 'name')
    check(throws(lambda: DOSM.dos_from_file('dos.dat', 'q', no + 1), AssertionError), 'other orbitals are rejected'); DOSM.numpy = np_
@entry(nra=1)
def h_weights():
    """weights of the points: the density of states times the width of the cell around the point, normalised"""
    n = s_pick('n', 2, 3); e, r = table(n, 0.125); H = HilbertTransform(DOS(e, r)); w = H.rho_for_sum; c = [(e[1] - e[0]) * r[0]] + [(e[i + 1] - e[i - 1]) / 2 * r[i] for i in range(1, n - 1)] + [(e[-1] - e[-2]) * r[-1]]; S = sum(c); [close(w[i] * S, c[i], 'normalised weights of the points', 1e-5) for i in range(n)]; close(sum(w[i] * S for i in range(n)), S, 'the weights add up to one', 1e-5); same(flat(H.dos.rho), flat(r), 'the operands are left alone'); check(throws(lambda: HilbertTransform(3), AssertionError), 'only densities of states are accepted')
def freq(p, m): return p.value if isinstance(m, MeshReFreq) else 1j * ((2 * p.value.n + (1 if p.value.statistic == 'Fermion' else 0)) * math.pi / p.value.beta)
def dosfixed(n): e = [-1.0, 0.5, 1.0, 3.0][:n]; return DOS(np_.array(e), np_.array([0.25 + 0.5 * i for i in range(n)]))
def transform(sigma_fnt=False):
    n = s_pick('n', 2, 3); no = s_pick('orbitals', 1, 2); m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq']), 1); H = HilbertTransform(dosfixed(n)); e = H.dos.eps; S = gf(m, (no, no), 'S'); sw = snap(S); mu, eta = s_real('mu', -4, 4), s_real('eta', 0, 4); kw = {}
    hat = s_flag('epsilon_hat'); E = [s_array('E', (no, no), -4, 4) for i in range(n)] if hat else [np_.eye(no) * float(x) for x in e]
    if hat: kw['epsilon_hat'] = lambda x: np_.array([flat(y) for y in E]).reshape(len(x), no, no)
    field = s_pick('field', 0, 2); F = s_array('F', (no, no), -4, 4) if field == 1 else gf(m, (no, no), 'F') if field == 2 else None
    if field: kw['field'] = F
    fw = flat(F if field == 1 else F.data) if field else []; fnt = lambda x: S * (1.0 + float(x)); p = s_pick('nodes', 1, 2); res = [gf(m, (no, no), 'r') for i in range(p)] if s_flag('result') else None
    out = parallel(lambda: H(fnt if sigma_fnt else S, mu, eta, **kw, **({'result': res[RANK[0]]} if res else {})), p)
    if res: check(all(a is b for a, b in zip(out, res)), 'the result is computed in place')
    check(len(INV) == n * len(m), 'one inverse per energy and frequency'); want = [0] * len(sw); pos = 0
    for i in range(n):
        for k, pt in enumerate(m):
            a, b = INV[pos]; pos += 1; s = S.data[k] * (1.0 + float(e[i])) if sigma_fnt else S.data[k]; x = (freq(pt, m) + mu + eta * 1j) * np_.eye(no) - E[i] - s
            if field: x = x - (F if field == 1 else F.data[k])
            close(np_.array(a), np_.array(flat(x)), 'z + mu - epsilon - field - Sigma'); 
            for j, y in enumerate(flat(b)): want[k * no * no + j] = want[k * no * no + j] + H.rho_for_sum[i] * y
    got = [sum((flat(o.data)[j] for o in out), 0) for j in range(len(sw))]; close(np_.array(got), np_.array(want), 'the weighted sum of the inverses'); unchanged(S, sw)
    if field: same(flat(F if field == 1 else F.data), fw, 'the operands are left alone')
@entry
def h_transform(): transform()
@entry
def h_transform_function(): transform(True)
@entry
def h_refine():
    """densities of states from functions: number of points and convergence"""
    m = mesh('ImFreq', 1); d = DOSFromFunction(lambda x: 1.0, -1.0, 1.0, 4); H = HilbertTransform(d); S = gf(m, (1, 1), 'S'); k = s_pick('how', 0, 2); INV.clear()
    if k == 0: H(S); check(len(INV) == 4 * len(m), 'the points of the table')
    elif k == 1: q = s_pick('points', 2, 5); H(S, n_points_integral=q); check(len(d.eps) == q and len(INV) == q * len(m), 'the requested number of points'); close(H.rho_for_sum, np_.array([1.0 / q] * q), 'weights of the new points')
    else:
        R = []; H2 = HTM.HilbertTransform(d)
        vals = [s_real('g', 1, 4) for i in range(4)]
        def fake(dd):
            for j in range(dd.shape[0]): INV.append((None, None)); dd[j] = np_.array([[vals[min(3, len(R))]]])
        W_ = sys.modules['triqs.gf.wrapped_aux']; old = W_._gf_invert_data_in_place; W_._gf_invert_data_in_place = fake
        ar = MPI.all_reduce
        def red(x): R.append(x.copy()); return x.copy()
        MPI.all_reduce = red
        try: out = H2(S, test_convergence=0.5)
        finally: W_._gf_invert_data_in_place = old; MPI.all_reduce = ar
        check(len(R) >= 2, 'convergence is tested'); a, b = R[-2].data, R[-1].data; same(flat(out.data), flat(b), 'the result of the finest grid'); [check(OR(*[abs(y - x).real > 0.5 * max_abs(q) for x, y in zip(flat(p.data), flat(q.data))]), 'refined until it converges') for p, q in zip(R[:-2], R[1:-1])]
        check(len(R) == 10 or AND(*[abs(y - x).real <= 0.5 * max_abs(R[-1]) for x, y in zip(flat(a), flat(b))]), 'refined until it converges')
def max_abs(g):
    r = 0
    for x in flat(g.data): y = abs(x); r = y if r < y else r
    return r
