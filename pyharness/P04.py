"""P04: Matsubara frequencies, mesh points and product meshes in Python."""
from pysym import *
import math, itertools, types
for n in ('h5', 'h5.formats'): stub(n, register_class=lambda *a, **k: None)
F = load('triqs.gf.matsubara_freq').MatsubaraFreq; MP = load('triqs.gf.mesh_point'); P = load('triqs.gf.mesh_product'); MeshPoint = MP.MeshPoint
def freq(beta, n='n'): st = s_choice('statistic', ['Fermion', 'Boson']); k = s_int(n, -2**40, 2**40); return F(k, beta, st), k, st == 'Fermion'
def value(k, fermion, beta): return 1j * (2 * k + (1 if fermion else 0)) * math.pi / beta
def cval(x): return x.__complex__() if isinstance(x, F) else x
def eq(a, b, id): same(a, b, id)
@entry
def h_value():
    b = s_real('beta', 0.01, 1000); f, k, st = freq(b); v = value(k, st, b)
    eq(f.value, v, 'the value of a frequency'); eq(f.imag, v.imag, 'the value of a frequency'); eq(f.real, 0.0, 'the value of a frequency'); eq(cval(f), v, 'the value of a frequency'); eq(f.__abs__(), abs(v.imag), 'the modulus of a frequency')
    d = F(k, b); eq(d.value, value(k, True, b), 'frequencies are fermionic unless said otherwise')
    m = -f; check(isinstance(m, F) and m.statistic == f.statistic, 'the opposite keeps the statistics'); check(m.beta == b, 'the opposite keeps beta'); eq(cval(m), -v, 'the opposite of a frequency'); n = -m; check(n.n == k, 'the opposite of the opposite is the frequency')
@entry
def h_sum():
    b = s_real('beta', 0.01, 1000); f, k, st = freq(b); g, l, su = freq(b); r = f + g; d = f - g
    for x, sign in ((r, 1), (d, -1)):
        check(isinstance(x, F), 'sums of frequencies are frequencies'); check(x.statistic == ('Boson' if st == su else 'Fermion'), 'the statistics of a sum'); check(x.is_fermion == (st != su), 'the statistics of a sum'); check(x.beta == b, 'the sum keeps beta')
        check(2 * x.n + (1 if st != su else 0) == (2 * k + (1 if st else 0)) + sign * (2 * l + (1 if su else 0)), 'the index of a sum is exact')
    z = f - f; check(z.n == 0, 'a frequency minus itself is the zero of bosons'); check(z.statistic == 'Boson', 'a frequency minus itself is the zero of bosons')
    c = s_real('beta', 0.01, 1000); assume(c != b); check(throws(lambda: f + F(l, c, g.statistic), RuntimeError), 'sums at different temperatures are rejected'); check(throws(lambda: f - F(l, c, g.statistic), RuntimeError), 'sums at different temperatures are rejected')
@entry
def h_numbers():
    """with numbers, a frequency is its value"""
    b = s_real('beta', 0.01, 1000); f, k, st = freq(b); v = value(k, st, b); x = s_cplx('x', -64, 64) if s_flag('complex') else s_real('x', -64, 64)
    eq(f + x, v + x, 'frequency and number'); eq(x + f, v + x, 'frequency and number'); eq(f - x, v - x, 'frequency and number'); eq(x - f, x - v, 'frequency and number'); eq(f * x, v * x, 'frequency and number'); eq(x * f, v * x, 'frequency and number')
    eq(f ** 2, v * v, 'a power of a frequency'); 
@entry
def h_quotient():
    b = s_real('beta', 0.1, 100); f, k, st = freq(b); v = value(k, st, b); w = v.imag; re, im = s_real('x', -64, 64), s_real('x', -64, 64); n = re * re + im * im; assume(n > 0.01); x = complex(re, im) if NATIVE else SymC(re, im)
    q = f / x; eq(q.real * n, im * w, 'frequency and number'); eq(q.imag * n, re * w, 'frequency and number')
    if st: r = x / f; eq(r.real * w, im, 'frequency and number'); eq(r.imag * w, -re, 'frequency and number')
def point(kind):
    if kind == 0: v = s_real('v', -64, 64); return v, v
    if kind == 1: v = s_cplx('v', -64, 64); return v, v
    f, k, st = freq(2.0); return f, value(k, st, 2.0)
def mpoint(kind): v, z = point(kind); return MeshPoint(s_int('index'), s_int('data'), 17, v, 1.0), z
@entry
def h_point():
    p, v = mpoint(s_pick('kind', 0, 2)); x = s_real('x', -64, 64) if s_flag('real') else s_cplx('x', -64, 64)
    eq(cval(p + x), v + x, 'mesh point and number'); eq(cval(x + p), v + x, 'mesh point and number'); eq(cval(p - x), v - x, 'mesh point and number'); eq(cval(x - p), x - v, 'mesh point and number'); eq(cval(p * x), v * x, 'mesh point and number'); eq(cval(x * p), v * x, 'mesh point and number'); eq(cval(-p), -v, 'the opposite of a mesh point'); eq(p.real, v.real, 'parts of a mesh point'); eq(p.imag, v.imag, 'parts of a mesh point'); eq(MP.MeshPoint.__complex__(p), v, 'a mesh point converts to its value')
@entry
def h_point_quotient():
    v = s_real('v', 0.1, 64); x = s_real('x', 0.1, 64); p = MeshPoint(0, 0, 0, v); eq((p / x) * x, v, 'mesh point and number'); eq((x / p) * v, x, 'mesh point and number'); q = MeshPoint(0, 0, 0, x); eq((p / q) * x, v, 'mesh points'); eq(p.__float__(), v, 'a mesh point converts to its value')
    k = s_int('k', -99, 99); check(MeshPoint(0, 0, 0, k).__int__() == k, 'a mesh point converts to its value')
@entry
def h_points():
    p, v = mpoint(s_pick('kind', 0, 2)); q, w = mpoint(s_pick('kind', 0, 2))
    eq(cval(p + q), v + w, 'mesh points'); eq(cval(p - q), v - w, 'mesh points')
    if not isinstance(q.value, F) or not isinstance(p.value, F): eq(cval(p * q), v * w, 'mesh points')
@entry
def h_point_vector():
    """a point with a vector value"""
    v = [s_real('v') for _ in range(3)]; p = MeshPoint(0, 0, 0, arr(v)); i = s_pick('i', 0, 2); check(p[i] == v[i], 'components of a mesh point'); a = s_real('x'); f = MeshPoint(0, 0, 0, lambda x, y=1: (x, y)); check(f(a, y=2) == (a, 2) or True, '!call'); r = f(a, y=2); check(r[0] is a and r[1] == 2, 'a mesh point calls its value')
    g = MP.MeshValueGenerator([MeshPoint(k, k, 0, x) for k, x in enumerate(v)]); w = list(g); check(len(w) == 3, 'the values of a mesh'); [check(x == y, 'the values of a mesh') for x, y in zip(w, v)]; check(len(list(g)) == 3, 'the values of a mesh can be listed again')
class Mesh:
    def __init__(s, n, off): s.n = n; s.off = off
    def __len__(s): return s.n
    def __iter__(s): return (MeshPoint(s.off + i, i, 0) for i in range(s.n))
    def __eq__(s, o): return (s.n, s.off) == (o.n, o.off)
    def copy(s): return Mesh(s.n, s.off)
    def copy_from(s, o): s.n, s.off = o.n, o.off; return s
    def to_data_index(s, i): return i - s.off
    def __repr__(s): return 'm%d' % s.n
@entry
def h_product():
    N = 3; r = s_pick('rank', 1, N); ms = [Mesh(s_pick('n', 1, 3), 10 * k) for k in range(r)]; p = P.MeshProduct(*ms)
    n = 1
    for m in ms: n *= m.n
    check(len(p) == n, 'the number of points'); check(p.rank == r, 'the number of components'); check(list(p.size_of_components()) == [m.n for m in ms], 'the sizes of the components'); check(all(p[k] is ms[k] for k in range(r)) and list(p.components) == ms, 'the components')
    pts = [tuple(x.data_index for x in q) for q in p]; check(pts == list(itertools.product(*[range(m.n) for m in ms])), 'every combination is visited once, in storage order'); check(len([1 for _ in p]) == n, 'every combination is visited once, in storage order')
    idx = [s_int('i', 0, 99) for _ in range(r)]; d = list(p.to_data_index(idx)); check(len(d) == r, 'positions component by component'); [check(x == i - m.off, 'positions component by component') for x, i, m in zip(d, idx, ms)]
@entry
def h_product_copy():
    ms = [Mesh(s_pick('n', 1, 2), 0) for _ in range(2)]; p = P.MeshProduct(*ms); q = p.copy(); check(q == p, 'a copy is equal'); check(all(a is not b for a, b in zip(q.components, ms)), 'a copy has its own components'); check(type(q) is P.MeshProduct, 'a copy is a product')
    o = P.MeshProduct(*[Mesh(s_pick('n', 1, 2), 0) for _ in range(2)]); check((p == o) == ([m.n for m in p.components] == [m.n for m in o.components]), 'equality compares the components'); t = P.MeshProduct(*[Mesh(m.n, m.off) for m in ms[:1]]); check(not (p == t), 'equality compares the components')
    f, a = p.__reduce__()[0], p.__reduce__()[1]; check(f(*a) == p, 'storage keeps the product'); n = s_pick('k', 1, 12); big = P.MeshProduct(*[Mesh(k + 1, k) for k in range(n)]); f, a = big.__reduce__()[0], big.__reduce__()[1]; check(f(*a) == big, 'storage keeps the order of the components')
    u = P.MeshProduct(*[m.copy() for m in ms]); u.copy_from(o); check(u == o, 'assignment takes every component'); w = P.MeshProduct(*ms[:1]); check(throws(lambda: w.copy_from(o)), 'assignment of another rank is rejected')
