# planted changes in the Python layer; every demo loads the real module from the tree given as argv[1] with stubs around it
HEAD = r'''import sys, os, types, io, contextlib
root = os.path.join(sys.argv[1], 'python', 'triqs')
def mod(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m
    if '.' in name: setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
    return m
mod('triqs').__path__ = [root]
mod('triqs.utility').__path__ = [root + '/utility']
class Comm: pass
mpi = mod('triqs.utility.mpi', size=1, rank=0, report=lambda *a: None, barrier=lambda *a: None, slice_array=lambda a: a, all_reduce=lambda *a, **k: a[0], is_master_node=lambda: True)
mod('h5').__path__ = []; mod('h5.formats', register_class=lambda *a: None)
import numpy
'''
SEEDS = {}
SEEDS['P03-hit-bound'] = dict(property='P03',
 edits=[('python/triqs/utility/dichotomy.py', '        yfound = y1\n        x = x1\n', '        yfound = y1\n        x = x1 if verbosity > 2 else x2\n')],
 needs='verbosity at most 2 and a lower bound that already meets the tolerance', breaks='the value returned belongs to the other bound',
 py=HEAD + r'''
from triqs.utility.dichotomy import dichotomy
bad = 0
for x0 in (3.0, -3.0, 2.5):
    f = lambda x: 2 * x
    x, y = dichotomy(f, x0, 1.0, 1e-3, 0.5, verbosity=0)
    if x is None or abs(f(x) - y) > 1e-12 or abs(y - 1) > 1e-3: bad += 1; print(x0, x, y)
sys.exit(bad != 0)
''')
SEEDS['P03-shared-counter'] = dict(property='P03',
 edits=[('python/triqs/utility/bound_and_bisect.py', '    # Determine upper bound\n    x = x_0; i = 0', '    # Determine upper bound\n    x = x_0')],
 needs='a starting point where the function equals the target and a limit smaller than the steps to both sides together', breaks='steps spent on the lower bound are charged to the upper one, so a bracket within the limit is reported as not found',
 py=HEAD + r'''
from triqs.utility.bound_and_bisect import determine_bounds
f = lambda x: max(x - 2.5, 0) + min(x + 2.5, 0) if abs(x) != 1 else x * 1e-9
g = lambda x: x if abs(x) > 2.5 else (1e-300 if x == 1 else 0.0) if x >= 0 else 0.0
try: a, b = determine_bounds(lambda x: (x - 2.5 if x > 2.5 else x + 2.5 if x < -2.5 else 0.0), 0.0, 1.0, 4)
except ValueError as e: print(e); sys.exit(1)
sys.exit(not (a == -3 and b == 3))
''')
SEEDS['P05-third-context'] = dict(property='P05',
 edits=[('python/triqs/gf/lazy_expressions.py', '[ C[0] == x for x in C ]', '[ C[i] == x for i, x in enumerate(C[1:2]) ] + [True]')],
 needs='an expression with three terminals of which only the last is incompatible', breaks='an incompatible terminal is accepted silently',
 py=HEAD + r'''
mod('triqs.gf').__path__ = [root + '/gf']
from triqs.gf.lazy_expressions import *
class T(LazyExprTerminal):
    def __init__(self, c): self.c = c
    def __lazy_expr_eval_context__(self): return Ctx(self.c)
class Ctx:
    def __init__(self, c): self.c = c
    def __eq__(self, o): return self.c == o.c
    def __call__(self, t): return 1.0
bad = 0
for cs in ((1, 1, 2), (1, 1, 1, 2), (1, 2, 1)):
    e = T(cs[0])
    for c in cs[1:]: e = e + T(c)
    try: eval_expr(e); bad += 1; print('accepted', cs)
    except ValueError: pass
e = T(1) + T(1) + T(1)
bad += eval_expr(e) != 3
sys.exit(bad != 0)
''')
SEEDS['P12-third-segment'] = dict(property='P12',
 edits=[('python/triqs/lattice/utils.py', '        cur_dist = dist[-1]', '        cur_dist += dist_new[-1]')],
 needs='a path of at least three segments', breaks='the distance of earlier segments is counted again from the third segment on',
 py=HEAD + r'''
mod('triqs.lattice').__path__ = [root + '/lattice']
from triqs.lattice.utils import k_space_path
P = [numpy.array(x) for x in ((0, 0, 0), (.5, 0, 0), (.5, .25, 0), (.5, .25, 1.), (0, 0, 0))]
k, d, t = k_space_path(list(zip(P[:-1], P[1:])), num=5)
ref = numpy.concatenate(([0], numpy.cumsum([numpy.linalg.norm(b - a) for a, b in zip(P[:-1], P[1:])])))
print(t, ref); sys.exit(not numpy.allclose(t, ref))
''')
SEEDS['P02-falsy-task'] = dict(property='P02',
 edits=[('python/triqs/utility/dist_on_nodes.py', '                if omega ==None :', '                if not omega :')],
 needs='a task that is falsy (0) treated by a worker', breaks='the task is skipped and its result is None',
 py=HEAD + r'''
inbox, sent = [False, 3, False, 0, False, (), True], []
mpi.size = 2; mpi.rank = 1; mpi.recv = lambda src=0: inbox.pop(0); mpi.send = lambda m, to: sent.append((m, to))
from triqs.utility.dist_on_nodes import DistributionOnNodesOneStack
class D(DistributionOnNodesOneStack):
    def the_function(self, x): return (x, 'done')
D([]).run(); print(sent)
sys.exit(sent != [(((x, 'done'), 1), 0) for x in (3, 0, ())])
''')
SEEDS['P13-last-cell'] = dict(property='P13',
 edits=[('python/triqs/dos/hilbert_transform.py', '        R[-1] *= (eps[-1] - eps[-2])', '        R[-1] *= (eps[1] - eps[0])')],
 needs='an energy mesh that is not equidistant', breaks='the last weight uses the width of the first cell',
 py=HEAD + r'''
mod('triqs.dos').__path__ = [root + '/dos']; mod('triqs.gf')
class DOS:
    def __init__(self, e, r): self.eps, self.rho = numpy.array(e), numpy.array(r)
class DF(DOS): pass
sys.modules['triqs.dos'].DOS = DOS; sys.modules['triqs.dos'].DOSFromFunction = DF
from triqs.dos.hilbert_transform import HilbertTransform
h = HilbertTransform(DOS([0., 1., 3., 6.], [1., 1., 1., 1.]))
ref = numpy.array([1., 1.5, 2.5, 3.]); print(h.rho_for_sum, ref / 8); sys.exit(not numpy.allclose(h.rho_for_sum, ref / 8))
''')
SEEDS['P11-position-order'] = dict(property='P11',
 edits=[('python/triqs/lattice/super_lattice.py', 'for POS in tb_lattice.orbital_positions for CS in self.__cluster_sites]', 'for CS in self.__cluster_sites for POS in tb_lattice.orbital_positions]')],
 needs='a base lattice with several orbitals and a supercell with several sites', breaks='orbital positions are listed in another order than the packed (site, orbital) index',
 py=HEAD + r'''
mod('triqs.lattice').__path__ = [root + '/lattice']
class TBL:
    def __init__(self, units, hoppings, orbital_positions=None, orbital_names=None):
        self.units, self.hoppings, self.orbital_positions, self.orbital_names = numpy.array(units, float), hoppings, [numpy.array(p, float) for p in orbital_positions], orbital_names
        self.ndim, self.n_orbitals = len(units), len(self.orbital_positions)
    def lattice_to_real_coordinates(self, x): return numpy.dot(numpy.array(x, float), self.units)
mod('triqs.lattice.tight_binding', TBLattice=TBL)
from triqs.lattice.super_lattice import TBSuperLattice
b = TBL([[1, 0], [0, 1]], {(0, 1): numpy.eye(2)}, [(0, 0), (.5, .25)], ['a', 'b'])
s = TBSuperLattice(b, [[2, 0], [0, 1]]); cs = list(s.cluster_sites()); bad = 0
for i in range(s.n_orbitals):
    site, orb = s.unpack_index_site_orbital(i)
    bad += not numpy.allclose(s.orbital_positions[i], b.orbital_positions[orb] + b.lattice_to_real_coordinates(cs[site]))
print(bad, s.orbital_positions); sys.exit(bad != 0)
''')
SEEDS['P15-edge'] = dict(property='P15',
 edits=[('python/triqs/plot/protocol.py', 'if x > x_max))', 'if x >= x_max > x_min))')],
 needs='a point exactly on the upper edge of a window of nonzero width', breaks='the point on the edge is cut off',
 py=HEAD + r'''
mod('triqs.plot').__path__ = [root + '/plot']
from triqs.plot.protocol import clip_array
x = numpy.array([0., 1., 2., 3.]); bad = 0
for lo in numpy.arange(-1, 4, .5):
    for hi in numpy.arange(lo, 4.5, .5): bad += list(x[clip_array(x, lo, hi)]) != [v for v in x if lo <= v <= hi]
print(bad); sys.exit(bad != 0)
''')
SEEDS['P04-third-component'] = dict(property='P04',
 edits=[('python/triqs/gf/mesh_product.py', 'return (x.to_data_index(i) for x,i in zip(self._mlist, idx))', 'return ((self._mlist[0] if k == 0 else self._mlist[1]).to_data_index(i) for k, i in enumerate(idx))')],
 needs='a product of three or more meshes whose second and later components differ', breaks='the storage position of the third component is computed by the second mesh',
 py=HEAD + r'''
mod('triqs.gf').__path__ = [root + '/gf']
from triqs.gf.mesh_product import MeshProduct
class M:
    def __init__(self, first, n): self.first, self.n = first, n
    def __len__(self): return self.n
    def __iter__(self): return iter(range(self.first, self.first + self.n))
    def to_data_index(self, i): return i - self.first
m = MeshProduct(M(-2, 4), M(0, 3), M(-5, 2)); bad = 0
for i in m: bad += tuple(m.to_data_index(i)) != (i[0] + 2, i[1], i[2] + 5)
print(bad); sys.exit(bad != 0)
''')
SEEDS['P14-eps-of-sigma'] = dict(property='P14',
 edits=[('python/triqs/sumk/sumk_discrete.py', 'elif Sigma_Nargs == 2: tmp2 -= Sigma(k,eps_k)', 'elif Sigma_Nargs == 2: tmp2 -= Sigma(k,eps_hat)')],
 needs='an epsilon_hat function together with a self-energy of two arguments', breaks='the self-energy is given the transformed hopping instead of t(k)',
 py=HEAD + r'''
mod('triqs.sumk').__path__ = [root + '/sumk']
class Iw: pass
iOmega_n = Iw(); W = [1j, 3j]
class MeshImFreq: pass
class G1:
    target_shape = (1, 1)
class BlockGf:
    mesh = MeshImFreq(); n_blocks = 1
    def __init__(self, d=None): self.d = numpy.array(d if d is not None else [0j, 0j])
    def __iter__(self): return iter([('a', G1())])
    def copy(self): return BlockGf(self.d)
    def zero(self): self.d = self.d * 0
    def __lshift__(self, o): self.d = numpy.array(W) if o is iOmega_n else o.d.copy()
    def __isub__(self, o): self.d = self.d - (o.d if isinstance(o, BlockGf) else complex(o[0][0, 0])); return self
    def __iadd__(self, o): self.d = self.d + o.d; return self
    def __imul__(self, w): self.d = self.d * w; return self
    def invert(self): self.d = 1 / self.d
    def __bool__(self): return True
mod('triqs.gf', BlockGf=BlockGf, MeshImFreq=MeshImFreq, iOmega_n=iOmega_n)
from triqs.sumk.sumk_discrete import SumkDiscrete
s = SumkDiscrete(1, [0]); s.resize_arrays(2); s.bz_points[:, 0] = (0, .5); s.hopping[:, 0, 0] = (1., -2.)
sig = lambda k, e: BlockGf([.3 * e[0, 0] + .1 * k[0]] * 2)
g = s(Sigma=sig, mu=.2, epsilon_hat=lambda e: e + .7)
ref = sum(.5 / (numpy.array(W) + .2 - (e + .7) - (.3 * e + .1 * k)) for k, e in ((0, 1.), (.5, -2.)))
print(g.d, ref); sys.exit(not numpy.allclose(g.d, ref))
''')
SEEDS['P16-key-order'] = dict(property='P16',
 edits=[('python/triqs/utility/comparison_tests.py', '        assert nx == ny, "block name {} does not match {}".format(nx,ny)', '        assert nx in b.indices or nx == ny, "block name {} does not match {}".format(nx,ny)')],
 needs='two block functions with the same block names in another order', breaks='blocks of different names are compared and accepted',
 py=HEAD + r'''
from triqs.utility.comparison_tests import assert_block_gfs_are_close
class G:
    mesh = 1
    def __init__(self, x): self.data = numpy.array([x])
class B:
    def __init__(self, l): self.l = l; self.indices = [n for n, _ in l]
    def __len__(self): return len(self.l)
    def __iter__(self): return iter(self.l)
a, b = B([('u', G(1.)), ('d', G(2.))]), B([('d', G(1.)), ('u', G(2.))])
assert_block_gfs_are_close(a, a)
try: assert_block_gfs_are_close(a, b)
except AssertionError: sys.exit(0)
print('accepted'); sys.exit(1)
''')
