"""P16: comparison of objects and files."""
from pysym import *
from gfmodel import *
import opmodel
class HDFArchiveGroup:
    """a group: keys and items"""
    def __init__(s, d): s.d = d
    def keys(s): return list(s.d)
    def __getitem__(s, k): return s.d[k]
FILES = {}
class HDFArchive(HDFArchiveGroup):
    def __init__(s, name, mode): assert mode == 'r'; s.d = FILES[name]
sys.modules['h5'].__dict__.update(HDFArchive=HDFArchive, HDFArchiveGroup=HDFArchiveGroup, __all__=['HDFArchive', 'HDFArchiveGroup'])
BG = load('triqs.gf.block_gf'); BlockGf = BG.BlockGf; Block2Gf = load('triqs.gf.block2_gf').Block2Gf
m = sys.modules.get('triqs.gf') or stub('triqs.gf'); m.Gf, m.BlockGf, m.Block2Gf = Gf, BlockGf, Block2Gf; m.__all__ = ['Gf', 'BlockGf', 'Block2Gf']
stub('triqs.operators', Operator=opmodel.Operator, __all__=['Operator']); Operator = opmodel.Operator
CT = load('triqs.utility.comparison_tests'); HD = load('triqs.utility.h5diff')
from fractions import Fraction
def num(cplx=False): return s_cplx('x', -4, 4) if cplx else s_real('x', -4, 4)
def near(x, y, p):
    p = p if issym(p) else Fraction(p); return (x.real - y.real) * (x.real - y.real) + (x.imag - y.imag) * (x.imag - y.imag) < p * p if isc(x) or isc(y) or isinstance(x, complex) else AND(x - y < p, y - x < p)
def nearall(a, b, p): return AND(*[near(x, y, p) for x, y in zip(flat(a), flat(b))])
def arrays(p, shapes=None):
    c = s_flag('cplx'); sh = s_choice('shape', shapes or [(2,), (1, 2), (2, 2), (0,)]); other = s_choice('other', [None, 'longer', 'broadcast', 'rank']); a = s_array('a', sh, -4, 4, c); sb = {None: sh, 'longer': (sh[0] + 1,) + sh[1:], 'broadcast': (1,) + sh[1:], 'rank': (1,) + sh}[other]; b = s_array('b', sb, -4, 4, c)
    return a, b, sh == sb and nearall(a, b, p)
def gfs(p, name='g'):
    sh = s_choice('target', [(), (1, 1), (2, 1)]); d = s_choice('differs', [None, 'type of the mesh', 'mesh', 'target']); g = gf(mesh('ImFreq', 1), sh, name); n = 1; k = 'ImFreq'
    m2 = mesh('ImTime', 1) if d == 'type of the mesh' else mesh('ImFreq', 1, 3.0) if d == 'mesh' else mesh('ImFreq', 1); h = gf(m2, {(): (1,), (1, 1): (2, 2), (2, 1): (2, 2)}[sh] if d == 'target' else sh, name + "'"); return g, h, d is None and nearall(g.data, h.data, p)
def blocks(p):
    d = s_choice('differs', [None, 'name', 'number', 'mesh', 'order']); n = s_pick('n', 1, 2); nm = ['up', 'down'][:n]; A = [gf(mesh('ImFreq', 1), (1, 1), 'a') for i in nm]; M = [mesh('ImFreq', 1, 3.0 if d == 'mesh' and i == n - 1 else 2.0) for i in range(n)] + ([mesh('ImFreq', 1)] if d == 'number' else []); B = [gf(x, (1, 1), 'b') for x in M]; nb = ['x' if d == 'name' and i == n - 1 else nm[i] if i < n else 'z' for i in range(len(B))]
    if d == 'order': assume(n == 2); nb = nb[::-1]
    return BlockGf(name_list=nm, block_list=A, make_copies=False), BlockGf(name_list=nb, block_list=B, make_copies=False), d is None and AND(*[nearall(x.data, y.data, p) for x, y in zip(A, B)])
def blocks2(p):
    d = s_choice('differs', [None, 'name', 'number', 'order']); A = [gf(mesh('ImFreq', 1), (), 'a') for i in range(2)]; B = [gf(mesh('ImFreq', 1), (), 'b') for i in range(1 if d == 'number' else 2)]; nb = ['u'] if d == 'number' else ['d', 'u'] if d == 'order' else ['u', 'x' if d == 'name' else 'd']
    return Block2Gf(['u'], ['u', 'd'], [A]), Block2Gf(['u'], nb, [B]), d is None and AND(*[nearall(x.data, y.data, p) for x, y in zip(A, B)])
def ops(p):
    x, y = s_real('x', -4, 4), s_real('y', -4, 4); assume(x != 0); assume(y != 0); a = opmodel.n('up', 0) * x; b = opmodel.n('up', 0) * y
    if s_flag('more'): return a, b + opmodel.n('down', 0), False
    return a, b, x == y
def scalar(p):
    k = s_choice('number', ['int', 'float', 'complex'])
    if k == 'int': a, b = s_int('a', -4, 4), s_int('b', -4, 4); return a, b, AND(a - b < p, b - a < p)
    a, b = num(k == 'complex'), num(k == 'complex'); return a, b, near(a, b, p)
def other(p):
    k = s_pick('kind', 0, 4)
    if k == 0: a, b = s_flag('a'), s_flag('b'); return a, b, a == b
    if k == 1: a, b = s_choice('a', ['', 'x', 'xy']), s_choice('b', ['', 'x', 'xy']); return a, b, a == b
    if k == 2: x = num(); return x, s_array('b', (1,), -4, 4), False
    if k == 3: return [num()], (num(),), False
    return {'a': 1}, HDFArchiveGroup({'a': 1}), False
LEAF = [scalar, arrays, other]
def leaf(p): return s_choice('leaf', LEAF if not THOROUGH else LEAF + [gfs, ops])(p)
def small(p): a, b = num(), num(); return a, b, near(a, b, p)
def seq(p, f):
    n = s_pick('n', 0, 2); q = [(f if i == n - 1 else small)(p) for i in range(n)]; a, b = [x[0] for x in q], [x[1] for x in q]; more = s_flag('longer')
    if more: b = b + [num()]
    t = s_choice('type', [list, tuple]); return t(a), t(b), not more and AND(*[x[2] for x in q])
def group(p, f, wrap=None):
    n = s_pick('n', 0, 2); q = [(f if i == n - 1 else small)(p) for i in range(n)]; d = s_choice('keys', ['same', 'order', 'missing', 'extra', 'renamed']); a = {'k%d' % i: x[0] for i, x in enumerate(q)}; b = {'k%d' % i: x[1] for i, x in enumerate(q)}; ok = AND(*[x[2] for x in q])
    if d == 'order': b = dict(reversed(list(b.items())))
    elif d == 'extra': b['z'] = num(); ok = False
    elif n and d != 'same':
        x = b.pop('k0'); ok = False
        if d == 'renamed': b['z'] = x
    wrap = wrap or s_choice('group', [HDFArchiveGroup, lambda x: x]); return wrap(a), wrap(b), ok
def prec(): return s_real('precision', 0.01, 2)
def agrees(f, ok, what='reports exactly the differences beyond the precision'):
    e = raised(f); check(e is None or issubclass(e, (AssertionError, RuntimeError)), 'no other exception'); check(ok if e is None else NOT(ok), what)
@entry
def h_arrays(): p = prec(); a, b, ok = arrays(p); agrees(lambda: CT.assert_arrays_are_close(a, b, p), ok)
@entry
def h_default_precision():
    a, b, ok = arrays(1e-6, [(2,)]); k = s_pick('fn', 0, 1)
    if k == 0: agrees(lambda: CT.assert_arrays_are_close(a, b), ok)
    else: g, h, ok = gfs(1e-6); agrees(lambda: CT.assert_gfs_are_close(g, h), ok)
@entry
def h_scalar_matrix():
    n = s_pick('n', 1, 3); c = s_flag('cplx'); a = s_array('a', (n, n), -4, 4, c); x = num(c); p = prec(); agrees(lambda: CT.assert_array_close_to_scalar(a, x, p), AND(*[near(a[i, j], x if i == j else 0.0, p) for i in range(n) for j in range(n)]))
@entry
def h_gfs(): p = prec(); a, b, ok = gfs(p); agrees(lambda: CT.assert_gfs_are_close(a, b, p), ok)
@entry
def h_blocks(): p = prec(); a, b, ok = blocks(p); agrees(lambda: CT.assert_block_gfs_are_close(a, b, p), ok)
@entry
def h_blocks2(): p = prec(); a, b, ok = blocks2(p); agrees(lambda: CT.assert_block2_gfs_are_close(a, b, p), ok)
def file_of(f):
    p = prec(); a, b, ok = f(p); FILES['A'], FILES['B'] = {'x': a}, {'x': b}
    agrees(lambda: HD.h5diff('A', 'B', p), ok)
@entry
def h_file_leaf(): file_of(leaf)
@entry
def h_file_triqs(): file_of(lambda p: s_choice('object', [gfs, blocks, blocks2, ops])(p))
@entry
def h_file_seq(): file_of(lambda p: seq(p, leaf))
@entry
def h_file_group(): file_of(lambda p: group(p, leaf))
@entry
def h_file_nested(): file_of(lambda p: s_choice('outer', [seq, group])(p, lambda q: s_choice('inner', [seq, group])(q, small)))
@entry
def h_file_top():
    p = prec(); FILES['A'], FILES['B'], ok = group(p, scalar, lambda x: x); agrees(lambda: HD.h5diff('A', 'B', p), ok)
@entry
def h_file_history():
    """an earlier comparison does not change the next one"""
    p = prec(); FILES['A'], FILES['B'] = {'x': num()}, {'x': num()}; throws(lambda: HD.h5diff('A', 'B', p)); a, b, ok = small(p); FILES['A'], FILES['B'] = {'x': a}, {'x': b}; agrees(lambda: HD.h5diff('A', 'B', p), ok)
@entry
def h_file_default():
    a, b, ok = scalar(1e-6); FILES['A'], FILES['B'] = {'x': a}, {'x': b}; agrees(lambda: HD.h5diff('A', 'B'), ok)
