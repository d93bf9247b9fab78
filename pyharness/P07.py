"""P07: arithmetic and access of the Green's function container."""
from pysym import *
from gfmodel import *
import operator
PM = [('+', operator.add, operator.iadd), ('-', operator.sub, operator.isub)]
MUL = ('*', operator.mul, operator.imul); MAT = ('@', operator.matmul, operator.imatmul)
SHAPES = [(), (2, 2), (1, 1), (2,), (2, 1)]
def at(a, k): return a[k]
def anymesh(*k):
    """one of the meshes, a product mesh or a mesh with a single point"""
    x = s_choice('mesh', list(k) + ['product', 'point']); return MPr(mesh('ImFreq', 1), MeshReFreq(0., 1., 3)) if x == 'product' else MeshReFreq(0.5, 0.5, 1) if x == 'point' else mesh(x)
def npts(g): return g.data.reshape((-1,) + tuple(g.target_shape))
def nonzero(*x):
    for v in x:
        assume(v != 0) if not isc(v) else assume(OR(v.real != 0, v.imag != 0)) if not NATIVE else None
@entry
def h_sum():
    """Gf +- Gf"""
    m = anymesh('ImFreq', 'ReFreq', 'ImTime', 'Legendre'); sh = s_choice('target', SHAPES); real = s_flag('real'); g, h = gf(m, sh, 'g', real), gf(m.copy(), sh, 'h', real); a, b = snap(g), snap(h); o = s_choice('op', PM); want = [o[1](x, y) for x, y in zip(a, b)]
    r = o[1](g, h); same(flat(r.data), want, 'a sum is pointwise'); check(r.data.shape == g.data.shape and r.mesh == m, 'a sum keeps mesh and target'); unchanged(g, a); unchanged(h, b); r.data[...] = 0; unchanged(g, a); unchanged(h, b)
    keep = g; g = o[2](g, h); check(g is keep, 'in-place operations keep the object'); same(flat(g.data), want, 'a sum is pointwise'); unchanged(h, b)
    n = -h; same(flat(n.data), [-y for y in b], 'the opposite is pointwise'); unchanged(h, b)
@entry
def h_sum_self():
    m = mesh(); sh = s_choice('target', [(), (2, 2)]); g = gf(m, sh); a = snap(g); r = g - g; same(flat(r.data), [0 * x for x in a], 'a sum is pointwise'); g += g; same(flat(g.data), [2 * x for x in a], 'a sum is pointwise')
@entry
def h_scalar():
    """numbers and matrices on either side"""
    m = anymesh('ImFreq', 'ReFreq'); sh = s_choice('target', [(), (2, 2), (1, 1), (2,), (2, 2, 2)]); g = gf(m, sh); a = g.data.copy(); was = snap(g); c = s_real('c', -8, 8) if s_flag('real') else s_cplx('c', -8, 8); k = s_pick('op', 4 if type(m) is MPr and len(sh) == 2 else 0, 6); t = np_.eye(sh[0]) * c if len(sh) == 2 else c
    if k == 0: r, w = g + c, a + t
    elif k == 1: r, w = c + g, a + t
    elif k == 2: r, w = g - c, a - t
    elif k == 3: r, w = c - g, t - a
    elif k == 4: r, w = g * c, a * c
    elif k == 5: r, w = c * g, a * c
    else: nonzero(c); r, w = g / c, a * (1 / c)
    same(flat(r.data), flat(w), 'a number acts at every point'); check(r.data.shape == a.shape, 'a sum keeps mesh and target'); unchanged(g, was); h = g
    if k in (0, 1): h += c
    elif k in (2, 3): h -= c; w = a - t
    elif k in (4, 5): h *= c
    else: h /= c
    check(h is g, 'in-place operations keep the object'); same(flat(h.data), flat(w), 'a number acts at every point')
@entry
def h_matrix():
    """matrices on either side"""
    m = anymesh('ImFreq', 'ReFreq'); sh = s_choice('target', [(2, 2), (1, 1)] + ([(2, 1)] if True else [])); g = gf(m, sh); a = g.data.copy(); was = snap(g); k = s_pick('op', 4 if type(m) is MPr else 0, 6); left = k in (5, 6) ; M = s_array('M', sh if k < 4 else (s_pick('rows', 1, 2), sh[0]) if left else (sh[1], sh[1]), -8, 8, s_flag('cplx')); mw = flat(M)
    if left and M.shape[0] != sh[0]: check(throws(lambda: M * g if k == 5 else M @ g), 'products of other shapes are rejected'); return
    if k == 4 and s_flag('wide'): X = s_array('X', (sh[1], 3 - sh[1]), -8, 8); check(throws(lambda: g * X), 'products of other shapes are rejected'); unchanged(g, was); check(throws(lambda: g.__imul__(X)), 'products of other shapes are rejected'); unchanged(g, was); return
    per = lambda f: [f(x) for x in a.reshape((-1,) + sh)]
    if k == 0: r, w = g + M, per(lambda x: x + M)
    elif k == 1: r, w = M + g, per(lambda x: x + M)
    elif k == 2: r, w = g - M, per(lambda x: x - M)
    elif k == 3: r, w = M - g, per(lambda x: M - x)
    elif k == 4: r, w = (g * M if s_flag('at') else g @ M), per(lambda x: np_.dot(x, M))
    elif k == 5: r, w = M * g, per(lambda x: np_.dot(M, x))
    else: r, w = M @ g, per(lambda x: np_.dot(M, x))
    same(flat(r.data), flat(w), 'a matrix acts at every point'); unchanged(g, was); same(flat(M), mw, 'the operands are left alone'); h = g
    if k == 0: h += M
    elif k == 2: h -= M
    elif k == 4: h *= M
    else: return
    check(h is g, 'in-place operations keep the object'); same(flat(h.data), flat(w), 'a matrix acts at every point'); same(flat(M), mw, 'the operands are left alone')
@entry
def h_product():
    """Gf * Gf for every combination of target ranks"""
    m = anymesh('ImFreq', 'ReFreq'); s1, s2 = s_choice('target', [((), ()), ((2, 2), (2, 2)), ((2, 2), ()), ((), (2, 2)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((1, 1), (1, 1)), ((2, 2), (2, 1))]); g, h = gf(m, s1, 'g'), gf(m.copy(), s2, 'h'); a, b = g.data.copy(), h.data.copy(); A, B = npts(g).copy(), npts(h).copy(); n = len(A)
    w = [np_.dot(A[i], B[i]) if s1 and s2 else A[i] * B[i] for i in range(n)]; o = s_choice('op', [MUL, MAT]); r = o[1](g, h); same(flat(r.data), flat(w), 'a product is pointwise'); unchanged(g, flat(a)); unchanged(h, flat(b)); check(r.mesh == m, 'a product keeps the mesh'); check(tuple(r.target_shape) == ((s1[0], s2[1]) if s1 and s2 else s1 or s2), 'the shape of a product')
    r.data[...] = 0; unchanged(g, flat(a)); unchanged(h, flat(b)); k = g
    if s1 and s2 and (s1[0] != s1[1] or s2[0] != s2[1]) or (not s1 and s2): 
        check(throws(lambda: o[2](g, h), AssertionError, ValueError), 'an impossible in-place product is rejected'); unchanged(g, flat(a)); return
    g = o[2](g, h); check(g is k, 'in-place operations keep the object'); same(flat(g.data), flat(w), 'an in-place product is pointwise'); unchanged(h, flat(b))
@entry
def h_square():
    m = mesh(); sh = s_choice('target', [(), (2, 2)]); g = gf(m, sh); a = g.data.copy(); w = [np_.dot(x, x) if sh else x * x for x in a]; g *= g; same(flat(g.data), flat(w), 'an in-place product is pointwise')
@entry
def h_statistic():
    """the statistic of products in imaginary time; other meshes must agree"""
    st = ['Fermion', 'Boson']; s1, s2 = s_choice('s', st), s_choice('s', st); prod = s_flag('product'); b1, b2 = 2.0, s_choice('beta', [2.0, 3.0]); n1, n2 = 2, s_choice('n', [2, 3]); m1, m2 = MeshImTime(b1, s1, n1), MeshImTime(b2, s2, n2); z = MeshBrZone(2)
    g, h = (gf(MPr(z, m1), (), 'g'), gf(MPr(z, m2), (), 'h')) if prod else (gf(m1, (), 'g'), gf(m2, (), 'h')); a, b = snap(g), snap(h)
    if b1 != b2 or n1 != n2: check(throws(lambda: g * h), 'incompatible meshes are rejected'); unchanged(g, a); return
    r = g * h; t = r.mesh.components[1] if prod else r.mesh; check(t.statistic == ('Boson' if s1 == s2 else 'Fermion'), 'the statistic of a product'); check(t.beta == b1 and len(t) == n1, 'a product keeps the mesh'); same(flat(r.data), [x * y for x, y in zip(a, b)], 'a product is pointwise'); check((r.mesh.components[0] == z) if prod else True, 'a product keeps the mesh')
@entry
def h_incompatible():
    """operations between different meshes are rejected and change nothing"""
    k1, k2 = s_choice('mesh', ['ImFreq', 'ReFreq', 'Legendre']), s_choice('mesh', ['ImFreq', 'ReFreq', 'Legendre']); n2 = s_pick('n', 1, 3); st = s_choice('stat', ['Fermion', 'Boson']); m1, m2 = mesh(k1), mesh(k2, n2, stat=st); assume(not (m1 == m2)); g, h = gf(m1, (), 'g'), gf(m2, (), 'h'); a, b = snap(g), snap(h); o = s_choice('op', PM + [MUL]); f = o[1 + s_pick('inplace', 0, 1)]
    check(throws(lambda: f(g, h)), 'incompatible meshes are rejected'); unchanged(g, a); unchanged(h, b); check(throws(lambda: g << h), 'incompatible meshes are rejected'); unchanged(g, a); check(g.mesh == mesh(k1), 'a rejected assignment leaves the mesh')
@entry
def h_invert():
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq'])); sh = s_choice('target', [(), (1, 1), (2, 2)]); real = len(sh) == 2 and sh[0] == 2; g = gf(m, sh, 'g', real); a = g.data.copy()
    for x in a:
        if sh == (): nonzero(x)
        elif sh == (1, 1): nonzero(x[0, 0])
        else: assume(OR(x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0] > 0.01, x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0] < -0.01))
    r = g.inverse(); unchanged(g, flat(a)); one = np_.eye(sh[0]) if sh else 1
    for i in range(len(m)): close(np_.dot(r.data[i], a[i]) if sh else r.data[i] * a[i], one, 'the inverse at every point'); close(np_.dot(a[i], r.data[i]) if sh else r.data[i] * a[i], one, 'the inverse at every point')
    k = g.invert(); same(flat(g.data), flat(r.data), 'inversion in place'); check(k is None, 'inversion in place')
@entry
def h_invert_product():
    """two meshes, matrix target"""
    m = MPr(mesh('ImFreq', 1), MeshBrZone(2)); g = gf(m, (2, 2), 'g', True); a = g.data.copy()
    for x in a.reshape((-1, 2, 2)): assume(OR(x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0] > 0.01, x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0] < -0.01))
    r = g.inverse(); unchanged(g, flat(a)); [close(np_.dot(x, y), np_.eye(2), 'the inverse at every point') for x, y in zip(r.data.reshape((-1, 2, 2)), a.reshape((-1, 2, 2)))]
@entry
def h_transpose():
    m = anymesh('ImFreq', 'ReFreq'); sh = s_choice('target', [(2, 2), (2, 1), (1, 1)]); g = gf(m, sh); a = g.data.copy()
    if type(m) is MPr: return
    r = g.transpose(); check(tuple(r.target_shape) == sh[::-1], 'the shape of the transpose'); R, A = npts(r), a.reshape((-1,) + sh); [same(R[i, y, x], A[i, x, y], 'the transpose at every point') for i in range(len(A)) for x in range(sh[0]) for y in range(sh[1])]; unchanged(g, flat(a)); r.data[...] = 0; unchanged(g, flat(a))
@entry
def h_conjugate():
    m = anymesh('ImFreq', 'ReFreq', 'ImTime'); sh = s_choice('target', SHAPES); g = gf(m, sh); a = snap(g); r = g.conjugate(); same(flat(r.data), [x.conjugate() for x in a], 'the conjugate at every point'); unchanged(g, a); r.data[...] = 0; unchanged(g, a)
    same(flat(g.real.data), [x.real for x in a], 'real and imaginary parts'); same(flat(g.imag.data), [x.imag for x in a], 'real and imaginary parts'); check(g.real.mesh == m and g.imag.mesh == m, 'real and imaginary parts'); g.zero(); same(flat(g.data), [0] * len(a), 'zero sets every value')
@entry
def h_from_L_G_R():
    m = mesh(); n1, n2, r1, r2 = s_pick('c', 1, 2), s_pick('d', 1, 2), s_pick('a', 1, 2), s_pick('b', 1, 2); g = gf(m, (n1, n2), 'g'); L, R = s_array('L', (r1, n1), -8, 8), s_array('R', (n2, r2), -8, 8)
    if s_flag('order'): L, R = np_.transpose(L.T.copy()), np_.transpose(R.T.copy())
    f = gf(m, (r1, r2), 'f'); a = snap(g); lw, rw = flat(L), flat(R); f.from_L_G_R(L, g, R); [same(f.data[i], np_.dot(np_.dot(L, g.data[i]), R), 'the transform at every point') for i in range(len(m))]; unchanged(g, a); same(flat(L) + flat(R), lw + rw, 'the operands are left alone')
    bad = gf(m, (r1 + 1, r2), 'bad'); b = snap(bad); check(throws(lambda: bad.from_L_G_R(L, g, R)), 'products of other shapes are rejected'); unchanged(bad, b)
@entry
def h_index():
    """reading and writing at mesh points"""
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq'])); sh = s_choice('target', [(), (2, 2)]); g = gf(m, sh); a = g.data.copy(); k = s_pick('point', 0, len(m) - 1); p = m[k] if s_flag('idx') else Idx(m._idx[k]); same(g[p], a[k], 'reading at a mesh point'); x = s_array('x', sh, -8, 8, True) if sh else s_cplx('x', -8, 8)
    g[p] = x; a[k] = x; same(flat(g.data), flat(a), 'writing at a mesh point changes that point only'); check(g[:] is g, 'the whole function')
    o = MeshImFreq(7.0, 'Fermion', 1)[0]; check(throws(lambda: g[o]), 'points of another mesh are rejected'); check(throws(lambda: g.__setitem__(o, x)), 'points of another mesh are rejected'); same(flat(g.data), flat(a), 'writing at a mesh point changes that point only')
@entry
def h_index_product():
    m1, m2 = mesh('ImFreq'), MeshReFreq(0., 1., 2); m = MPr(m1, m2); sh = s_choice('target', [(), (2, 2)]); g = gf(m, sh); a = g.data.copy(); i, j = s_pick('i', 0, len(m1) - 1), s_pick('j', 0, len(m2) - 1); p = m1[i] if s_flag('idx') else Idx(m1._idx[i]); q = m2[j] if s_flag('idx') else Idx(j); same(g[p, q], a[i, j], 'reading at a mesh point')
    s = g[p, :]; check(s.mesh == m2 and tuple(s.target_shape) == sh, 'the mesh of a slice'); same(s.data, a[i], 'reading a slice of the mesh'); t = g[:, q]; check(t.mesh == m1, 'the mesh of a slice'); same(t.data, a[:, j], 'reading a slice of the mesh')
    x = s_array('x', sh, -8, 8, True) if sh else s_cplx('x', -8, 8); g[p, q] = x; a[i, j] = x; same(flat(g.data), flat(a), 'writing at a mesh point changes that point only'); same(s.data, a[i], 'a slice is a view'); h = gf(m2, sh, 'h'); g[p, :] = h; a[i] = h.data; same(flat(g.data), flat(a), 'writing a slice of the mesh'); check(throws(lambda: g[p]) if isinstance(p, MP) else True, 'points of another mesh are rejected'); check(throws(lambda: g[q, p]) if isinstance(p, MP) and isinstance(q, MP) else True, 'points of another mesh are rejected'); check(throws(lambda: g[p, q, q]), 'the wrong number of indices is rejected'); check(throws(lambda: g[p, 0:1]), 'partial slices are rejected')
@entry
def h_index_three():
    m1, m2, m3 = mesh('ImFreq'), MeshReFreq(0., 1., 3), MeshBrZone(2); g = gf(MPr(m1, m2, m3), ()); a = g.data.copy(); k = s_pick('axis', 0, 2); ms = [m1, m2, m3]; j = s_pick('j', 0, len(ms[k]) - 1); key = [slice(None)] * 3; key[k] = ms[k][j]; s = g[tuple(key)]; key[k] = j; same(s.data, a[tuple(key)], 'reading a slice of the mesh'); r = [m for i, m in enumerate(ms) if i != k]; check(isinstance(s.mesh, MPr) and list(s.mesh.components) == r, 'the mesh of a slice')
@entry
def h_target():
    """blocks of the target space are views"""
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq'])); g = gf(m, (2, 2)); a = g.data.copy(); k = s_pick('kind', 0, 2)
    if k == 0: i, j = s_pick('i', 0, 1), s_pick('j', 0, 1); key = (i, j); ts = ()
    elif k == 1: i = s_pick('i', 0, 1); key = (slice(i, i + 1), slice(None)); ts = (1, 2)
    else: key = (slice(0, 2), slice(1, 2)); ts = (2, 1)
    full = (slice(None),) + key; s = g[key]; check(tuple(s.target_shape) == ts and s.mesh == m, 'the shape of a block'); same(s.data, a[full], 'reading a block of the target'); h = gf(m, ts, 'h'); g[key] = h; a[full] = h.data; same(flat(g.data), flat(a), 'writing a block changes that block only'); same(s.data, a[full], 'a block is a view')
    s *= 2; a[full] = a[full] * 2; same(flat(g.data), flat(a), 'writing a block changes that block only'); check(throws(lambda: g[0]), 'the wrong number of indices is rejected'); check(throws(lambda: g['a', 'b']), 'string indices are rejected'); check(throws(lambda: g[0, 0:1]), 'partial slices are rejected')
    if ts == (): c = s_cplx('c', -8, 8); g[key] = c; a[full] = c; same(flat(g.data), flat(a), 'writing a number sets the block')
@entry
def h_copy():
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq', 'Legendre'])); sh = s_choice('target', SHAPES); g = gf(m, sh); a = snap(g); c = g.copy(); same(flat(c.data), a, 'a copy is equal'); check(c.mesh == m and c.name == g.name, 'a copy is equal'); c.data[...] = 0; unchanged(g, a, 'a copy is independent'); c.mesh._key = 'changed'; check(g.mesh == m and m._key != 'changed', 'a copy is independent')
    h = gf(m, sh, 'h'); b = snap(h); o = h.data; k = s_pick('how', 0, 1)
    if k: h << g
    else: h.copy_from(g)
    same(flat(h.data), a, 'assignment copies the data'); check(h.data is o, 'assignment keeps the storage'); h.data[...] = 0; unchanged(g, a, 'assignment shares nothing'); g << g; unchanged(g, a, 'assignment to itself')
    w = gf(mesh('ImFreq', 3), sh, 'w'); u = snap(w); wm = w.mesh.copy(); check(throws(lambda: w.copy_from(g)) if type(m) is MeshImFreq else True, 'another shape is rejected'); unchanged(w, u); check(w.mesh == wm and len(w.mesh) == w.data.shape[0], 'a rejected assignment leaves the mesh'); f, ar = g.__reduce__()[:2]; r = f(*ar); same(flat(r.data), a, 'storage keeps the function'); check(r.mesh == m and r.name == g.name, 'storage keeps the function')
@entry
def h_construct():
    """data and target_shape"""
    m = s_choice('mesh', [mesh(), MPr(mesh(), MeshBrZone(3))]); sh = s_choice('target', SHAPES); g = Gf(mesh=m, target_shape=list(sh)); n = list(m.size_of_components()) if isinstance(m, MPr) else [len(m)]; check(g.data.shape == tuple(n) + sh and all(bool(x == 0) for x in g.data.flat), 'a new function is zero'); check(g.rank == len(n) and g.target_rank == len(sh) and tuple(g.target_shape) == sh, 'ranks and shapes'); check(list(g.target_indices) == list(np_.ndindex(*sh)) if sh else list(g.target_indices) == [()], 'the target indices')
    check(throws(lambda: Gf(mesh=m)), 'a function needs data or a shape'); check(throws(lambda: Gf(mesh=m, target_shape=[1], data=np_.zeros(tuple(n) + (1,)))), 'a function needs data or a shape'); check(throws(lambda: Gf(mesh=m, data=np_.zeros((n[0] + 1,) + tuple(n[1:]) + sh))), 'data of another size is rejected'); check(throws(lambda: Gf(mesh=m, target_shape=[0, 1])), 'empty targets are rejected'); check(throws(lambda: Gf(mesh=3, target_shape=[])), 'unknown meshes are rejected')
    d = s_array('d', tuple(n) + sh, -8, 8); g = Gf(mesh=m, data=d); check(g.data is d, 'given data is used in place')
@entry
def h_density():
    m = mesh(); g = gf(m, (2, 2)); d = density(g); same(flat(g.density()), flat(d), 'the density matrix'); same(g.total_density(), d[0, 0] + d[1, 1], 'the total density is the trace')
@entry
def h_lazy():
    """assignment of lazy expressions; the expression and its operands stay"""
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq'])); sh = s_choice('target', [(), (2, 2)]); g, h = gf(m, sh, 'g'), gf(m, sh, 'h'); a, b = g.data.copy(), h.data.copy(); c = s_real('c', -8, 8); k = s_pick('expr', 0, 10); n = len(m); om = [x.value if type(m) is MeshReFreq else x.value.value for x in m]; one = np_.eye(2) if sh else 1.0; Z = [one * z for z in om]; C = one * c
    if k == 0: g << D.Omega - c; w = [z - C for z in Z]
    elif k == 1: g << c; w = [C] * n
    elif k == 2: g << D.Omega * 2 + h; w = [2 * z + x for z, x in zip(Z, b)]
    elif k == 3: g << D.Omega - h - c; w = [z - x - C for z, x in zip(Z, b)]
    elif k == 4: g << c - D.Omega; w = [C - z for z in Z]
    elif k == 5: g << c * D.Omega + 1; w = [c * z + one for z in Z]
    elif k == 6: g << D.Omega; w = Z
    elif k == 7: g << LE.LazyExpr(h); w = list(b)
    elif k == 8: g << D.Omega + g; w = [z + x for z, x in zip(Z, a)]
    elif k == 9: g << D.Const(c) / 2; w = [C / 2] * n
    else: g << D.Omega + 2 * LE.LazyExpr(h) - (c - D.Omega); w = [2 * z + 2 * x - C for z, x in zip(Z, b)]
    same(flat(g.data), [y for x in w for y in flat(x)], 'assigning an expression sets every point'); unchanged(h, flat(b))
@entry
def h_lazy_inplace():
    """adding a lazy expression in place"""
    m = mesh(s_choice('mesh', ['ImFreq', 'ReFreq'])); g = gf(m, (), 'g'); a = snap(g); om = [x.value if type(m) is MeshReFreq else x.value.value for x in m]; k = s_pick('op', 0, 2); e = D.Omega
    if k == 0: r = g + e; w = [x + z for x, z in zip(a, om)]
    elif k == 1: r = g - e; w = [x - z for x, z in zip(a, om)]
    else: r = e * LE.LazyExpr(g); w = [x * z for x, z in zip(a, om)]
    h = gf(m, (), 'h'); h << r; same(flat(h.data), w, 'assigning an expression sets every point'); unchanged(g, a); v = LE.eval_expr(LE.LazyExpr(g) + 2 * LE.LazyExpr(g)); same(flat(v.data), [3 * x for x in a], 'the value of an expression of functions'); v = LE.eval_expr(LE.LazyExpr(g) + e); same(flat(v.data), [x + z for x, z in zip(a, om)], 'the value of an expression of functions'); unchanged(g, a)
@entry
def h_view():
    """data windows"""
    m = s_choice('mesh', [mesh('ImFreq', 2), MeshReFreq(-1.0, 2.0, 4)]); sh = s_choice('target', [(1, 1), (2, 2)]); g = gf(m, sh); lo, hi = s_choice('window', [(-1.5, 1.7), (-9, 9), (0, 0.5), (-0.2, 4.)]); X = [x.value.imag if type(m) is MeshImFreq else x.value for x in m]; fl = s_flag('flat'); x, y = g.x_data_view((lo, hi), flatten_y=fl); sel = [i for i, v in enumerate(X) if lo <= v <= hi]
    check(len(x) == len(sel) and y.shape[0] == len(sel), 'the window selects the points inside'); [same(float(u), X[i], 'abscissas of the window') for u, i in zip(x, sel)]; [same(flat(v), flat(g.data[i]), 'ordinates of the window') for v, i in zip(y, sel)]; check(y.ndim == (1 if fl and sh == (1, 1) else 3), 'flattening of scalar functions'); x, y = g.x_data_view(); check(len(x) == len(m) and all(float(u) == v for u, v in zip(x, X)), 'abscissas of the window'); same(flat(y), flat(g.data), 'ordinates of the window')
