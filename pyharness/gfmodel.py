"""Models of the compiled modules below triqs.gf: meshes, gf_fnt, wrapped_aux, plot, h5.  Used by the harnesses P06-P08, P14."""
import pysym
from pysym import *
import types, sys, numpy
if not hasattr(numpy, 'float_') and pysym.NATIVE: numpy.float_ = numpy.float64; numpy.complex_ = numpy.complex128
def _h5(n): return stub(n, register_class=lambda *a, **k: None, register_backward_compatibility_method=lambda *a, **k: None)
stub('h5', HDFArchive=type('HDFArchive', (), {})); _h5('h5.formats')
MF = load('triqs.gf.matsubara_freq'); MP = load('triqs.gf.mesh_point').MeshPoint
class _Mesh:
    """a one-dimensional mesh: indices in storage order, their values, a hash of everything"""
    def _set(s, idx, val, key): s._idx = list(idx); s._val = list(val); s._key = (type(s).__name__,) + tuple(key); return s
    def __len__(s): return len(s._idx)
    def __iter__(s): return (s._pt(k) for k in range(len(s._idx)))
    def _pt(s, k): return MP(s._idx[k], k, s.mesh_hash, s._val[k], 1.0)
    def __getitem__(s, k): return s._pt(k)
    def __call__(s, i): return s._pt(s.to_data_index(i))
    def to_data_index(s, i):
        for k, j in enumerate(s._idx):
            if j == i: return k
        raise IndexError('no such index')
    @property
    def mesh_hash(s): return hash(s._key)
    def __eq__(s, o): return type(s) is type(o) and s._key == o._key
    def __ne__(s, o): return not s == o
    __hash__ = None
    def copy(s): r = type(s).__new__(type(s)); r.__dict__.update(s.__dict__); r._idx = list(s._idx); return r
    def copy_from(s, o):
        if type(s) is not type(o): raise TypeError('mesh of another type')
        s.__dict__.update(o.__dict__)
    def values(s): return iter(s._val)
    def first_index(s): return s._idx[0]
    def last_index(s): return s._idx[-1]
class MeshImFreq(_Mesh):
    def __init__(s, beta, statistic='Fermion', n_iw=1, S=None): s.beta = beta; s.statistic = statistic; f = statistic == 'Fermion'; i = range(-n_iw if f else 1 - n_iw, n_iw); s._set(i, [MF.MatsubaraFreq(k, beta, statistic) for k in i], (repr(beta), statistic, n_iw))
    def positive_only(s): return False
class MeshDLRImFreq(_Mesh):
    def __init__(s, beta, statistic='Fermion', idx=(-3, 2)): s.beta = beta; s.statistic = statistic; s._set(idx, [MF.MatsubaraFreq(k, beta, statistic) for k in idx], (repr(beta), statistic, tuple(idx)))
class _Lin(_Mesh):
    def __init__(s, lo=0.0, hi=1.0, n=2, values=None): v = values if values is not None else [lo + (hi - lo) * k / max(1, n - 1) for k in range(n)]; s._set(range(len(v)), v, (repr(v),))
class MeshReFreq(_Lin): pass
class MeshReTime(_Lin): pass
class MeshImTime(_Mesh):
    def __init__(s, beta, statistic='Fermion', n_tau=2): s.beta = beta; s.statistic = statistic; s._set(range(n_tau), [beta * k / max(1, n_tau - 1) for k in range(n_tau)], (repr(beta), statistic, n_tau))
class MeshLegendre(_Mesh):
    def __init__(s, beta, statistic='Fermion', max_n=2): s.beta = beta; s.statistic = statistic; s._set(range(max_n), range(max_n), (repr(beta), statistic, max_n))
class MeshBrZone(_Mesh):
    def __init__(s, n=2): s._set([(k, 0, 0) for k in range(n)], [(k, 0., 0.) for k in range(n)], (n,))
meshes = stub('triqs.gf.meshes', **{c.__name__: c for c in (MeshImFreq, MeshDLRImFreq, MeshReFreq, MeshReTime, MeshImTime, MeshLegendre, MeshBrZone)})
stub('triqs.gf.plot', dispatcher=lambda g: (lambda s, o: [{'xdata': 0, 'ydata': 0, 'ylabel': s.name, 'name': s.name}]))
def density(g, *a, **k):
    """a linear functional of the function"""
    return sum((i + 2) * g.data[i] for i in range(g.data.shape[0]))
stub('triqs.gf.gf_fnt', density=density)
def _eye(n, y): return np_.eye(n) * y
def _term(x, y):
    if type(x.mesh) not in (MeshImFreq, MeshReFreq): raise TypeError('no overload for this mesh')
    if isinstance(y, np_.ndarray):
        if y.shape != tuple(x.target_shape): raise TypeError('matrix of another shape')
        return y
    if x.target_shape[0] != x.target_shape[1]: raise TypeError('scalar added to a rectangular matrix')
    return _eye(x.target_shape[0], y)
def iadd(x, y): x.data[...] += _term(x, y)
def isub(x, y): x.data[...] -= _term(x, y)
def inv(d):
    for k in range(d.shape[0]): d[k] = np_.linalg.inv(d[k])
def LGR(a, l, g, r):
    for k in range(a.shape[0]): a[k] = np_.dot(np_.dot(l, g[k]), r)
stub('triqs.gf.wrapped_aux', _iadd_g_matrix_scalar=iadd, _isub_g_matrix_scalar=isub, _gf_invert_data_in_place=inv, set_from_gf_data_mul_LR=LGR)
stub('triqs.utility.mpi', report=lambda *a, **k: None, is_master_node=lambda: True)
stub('triqs.plot.mpl_interface', oplot=None)
GF = load('triqs.gf.gf'); Gf = GF.Gf; LE = load('triqs.gf.lazy_expressions'); D = load('triqs.gf.descriptors'); MPr = load('triqs.gf.mesh_product').MeshProduct; Idx = GF.Idx
def mesh(kind=None, n=None, beta=2.0, stat='Fermion'):
    kind = kind or 'ImFreq'; n = n or (2 if pysym.THOROUGH else 1)
    return {'ImFreq': lambda: MeshImFreq(beta, stat, n), 'ReFreq': lambda: MeshReFreq(-1.0, 2.0, 2 * n), 'ImTime': lambda: MeshImTime(beta, stat, 2 * n), 'Legendre': lambda: MeshLegendre(beta, stat, 2 * n), 'ReTime': lambda: MeshReTime(0., 1., 2 * n)}[kind]()
def gf(m, tshape, name='g', real=False, lo=-8, hi=8):
    """a Green's function with arbitrary data"""
    sh = tuple(m.size_of_components() if isinstance(m, MPr) else [len(m)]) + tuple(tshape); return Gf(mesh=m, data=s_array(name, sh, lo, hi, not real), name=name)
def snap(g): return [x for x in flat(g.data)]
def unchanged(g, was, id='the operands are left alone'): same(flat(g.data), was, id)
