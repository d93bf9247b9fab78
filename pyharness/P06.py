"""P06: block Green's functions act block by block."""
from pysym import *
from gfmodel import *
import operator, pickle, warnings
BG = load('triqs.gf.block_gf'); BlockGf = BG.BlockGf; Block2Gf = load('triqs.gf.block2_gf').Block2Gf; MB = load('triqs.gf.map_block')
NAMES = [('up', 'down'), ('b', 'a'), ('x',), ('2', '10', '1')]
ms = lambda: mesh('ImFreq')
def bgf(names, shapes=None, tag='g', m=None):
    m = m or ms(); return BlockGf(name_list=list(names), block_list=[gf(m, (shapes or {}).get(n, ()), tag + n) for n in names], name=tag)
def b2gf(n1, n2, shape=(), tag='g'): m = ms(); return Block2Gf(list(n1), list(n2), [[gf(m, shape, tag + a + b) for b in n2] for a in n1], name=tag)
def data(G): return {n: g.data.copy() for n, g in G}
def eq(G, w, id): check(len(G) == len(w), id); [same(flat(G[n].data), flat(w[n]), id) for n in w]
def names(n=None): return s_choice('names', NAMES if n is None else n)
def shapes(ns): k = s_pick('shape', 0, 3 if len(ns) > 1 else 2); return {n: [(1, 1), (2, 2)][i % 2] if k == 3 else [(), (1, 1), (2, 2)][k] for i, n in enumerate(ns)}
OPS = [('+', operator.add, operator.iadd), ('-', operator.sub, operator.isub), ('*', operator.mul, operator.imul)]
def check_names(G, ns): check(list(G.indices) == list(ns) and [n for n, g in G] == list(ns) and G.n_blocks == len(ns) and len(G) == len(ns), 'the names of the blocks in order')
def per(ns, f): return {n: f(n) for n in ns}
def mul(x, y): return np_.array([np_.dot(a, b) for a, b in zip(x, y)]) if x.ndim == 3 and y.ndim == 3 else x * y
@entry
def h_binary():
    """block function with block function; the order of the names of the right operand is arbitrary"""
    ns = names(); sh = shapes(ns); g = bgf(ns, sh, 'g'); o = ns[::-1] if s_flag('reversed') else ns; h = bgf(o, sh, 'h'); a, b = data(g), data(h); k = s_pick('op', 0, 2); op = OPS[k]; f = [operator.add, operator.sub, mul][k]; w = per(ns, lambda n: f(a[n], b[n]))
    r = op[1](g, h); eq(r, w, 'an operation acts on the blocks of the same name'); check_names(r, ns); eq(g, a, 'the operands are left alone'); eq(h, b, 'the operands are left alone'); [x.data.fill(0) for _, x in r]; eq(g, a, 'results share nothing'); eq(h, b, 'results share nothing')
    keep = {n: x for n, x in g}; q = op[2](g, h); check(q is g and all(g[n] is keep[n] for n in ns), 'in-place operations keep the blocks'); eq(g, w, 'an operation acts on the blocks of the same name'); eq(h, b, 'the operands are left alone')
@entry
def h_number():
    ns = names(); sh = shapes(ns); g = bgf(ns, sh, 'g'); a = data(g); c = s_real('c', -8, 8); k = s_pick('op', 0, 7); t = lambda n: np_.eye(sh[n][0]) * c if sh[n] else c; keep = {n: x for n, x in g}
    if k == 0: r, w = g + c, per(ns, lambda n: a[n] + t(n))
    elif k == 1: r, w = c + g, per(ns, lambda n: a[n] + t(n))
    elif k == 2: r, w = g - c, per(ns, lambda n: a[n] - t(n))
    elif k == 3: r, w = c - g, per(ns, lambda n: t(n) - a[n])
    elif k == 4: r, w = g * c, per(ns, lambda n: a[n] * c)
    elif k == 5: r, w = c * g, per(ns, lambda n: a[n] * c)
    elif k == 6: assume(OR(c > 0.1, c < -0.1)); r, w = g / c, per(ns, lambda n: a[n] * (1 / c))
    else: r, w = -g, per(ns, lambda n: a[n] * -1)
    eq(r, w, 'a number acts on every block'); check_names(r, ns); eq(g, a, 'the operands are left alone'); q = g
    if k == 0: q += c
    elif k == 2: q -= c
    elif k == 4: q *= c
    elif k == 6: q /= c
    else: return
    check(q is g and all(g[n] is keep[n] for n in ns), 'in-place operations keep the blocks'); eq(g, w, 'a number acts on every block')
@entry
def h_matrix():
    """a matrix acts on every block from its side"""
    two = s_flag('two'); ns = ('b', 'a'); M = s_array('M', (2, 2), -8, 8); k = s_pick('op', 0, 5); g = b2gf(ns, ('x',), (2, 2)) if two else bgf(ns, {n: (2, 2) for n in ns}); ns = [n for n, x in g]; a = data(g)
    D = lambda x, y: np_.array([np_.dot(u, v) for u, v in zip(x, y)]); rep = lambda n: [M] * len(a[n])
    if k == 0: r, w = g + M, per(ns, lambda n: a[n] + M)
    elif k == 1: r, w = M + g, per(ns, lambda n: a[n] + M)
    elif k == 2: r, w = g - M, per(ns, lambda n: a[n] - M)
    elif k == 3: r, w = M - g, per(ns, lambda n: M - a[n])
    elif k == 4: r, w = g * M, per(ns, lambda n: D(a[n], rep(n)))
    else: r, w = M * g, per(ns, lambda n: D(rep(n), a[n]))
    eq(r, w, 'a matrix acts on every block from its side'); check([n for n, x in r] == ns, 'the names of the blocks in order'); eq(g, a, 'the operands are left alone'); [x.data.fill(0) for _, x in r]; eq(g, a, 'results share nothing')
@entry
def h_list():
    """a list holds one operand per block, in order"""
    ns = names(); sh = shapes(ns); g = bgf(ns, sh, 'g'); a = data(g); k = s_pick('op', 0, 2); mat = s_flag('matrix') and sh[ns[0]] != (); cs = [s_array('M', sh[n], -8, 8) if mat else s_real('c', 0.5, 8) for n in ns]; t = lambda n, c: c if mat or not sh[n] else np_.eye(sh[n][0]) * c; C = dict(zip(ns, cs))
    if k == 0: r, w = g + cs, per(ns, lambda n: a[n] + t(n, C[n]))
    elif k == 1: r, w = g - cs, per(ns, lambda n: a[n] - t(n, C[n]))
    else:
        if mat: return
        r, w = g / cs, per(ns, lambda n: a[n] * (1 / C[n]))
    eq(r, w, 'a list acts on the blocks in order'); eq(g, a, 'the operands are left alone'); check(throws(lambda: g + cs[1:]), 'a list of another length is rejected'); eq(g, a, 'the operands are left alone')
@entry
def h_lazy():
    """lazy expressions act on every block"""
    ns = names([('b', 'a')]); g = bgf(ns, None, 'g'); a = data(g); om = [x.value.value for x in g.mesh]; z = np_.array(om); k = s_pick('op', 0, 4); c = s_real('c', -8, 8); keep = {n: x for n, x in g}
    if k == 0: g << D.Omega - c; w = per(ns, lambda n: z - c)
    elif k == 1: g << c; w = per(ns, lambda n: z * 0 + c)
    elif k == 2: g += D.Omega; w = per(ns, lambda n: a[n] + z)
    elif k == 3: g -= D.Omega - c; w = per(ns, lambda n: a[n] - z + c)
    else: g *= D.Omega; w = per(ns, lambda n: a[n] * z)
    check(isinstance(g, BlockGf) and all(g[n] is keep[n] for n in ns), 'in-place operations keep the blocks'); eq(g, w, 'a lazy expression acts on every block')
@entry
def h_assign():
    ns = names(); sh = shapes(ns); g, o = bgf(ns, sh, 'g'), ns[::-1] if s_flag('reversed') else ns; h = bgf(o, sh, 'h'); a, b = data(g), data(h); k = s_pick('how', 0, 3); st = {n: x.data for n, x in g}; n0 = ns[0]
    if k == 0: g << h; w = b
    elif k == 1: g[:] = h; w = b
    elif k == 2: g[n0] << h[n0]; w = dict(a); w[n0] = b[n0]
    else: g[n0] = h[n0]; w = dict(a); w[n0] = b[n0]
    eq(g, w, 'assignment goes to the blocks of the same name'); eq(h, b, 'the operands are left alone'); check(all(g[n].data is st[n] for n in ns), 'assignment keeps the storage'); [x.data.fill(0) for _, x in g]; eq(h, b, 'assignment shares nothing'); check(throws(lambda: g['nobody'], IndexError), 'unknown names are rejected'); check(throws(lambda: g.__setitem__('nobody', h[n0]), IndexError), 'unknown names are rejected')
@entry
def h_copy():
    ns = names(); sh = shapes(ns); g = bgf(ns, sh, 'g'); a = data(g); k = s_pick('how', 0, 5); sel = [n for n in ns if s_flag('select')] or [ns[0]]; order = list(reversed(sel))
    if k == 0: r, shared, w = g.copy(), False, list(ns)
    elif k == 1: r, shared, w = g.copy_selected_blocks(order), False, sel
    elif k == 2: r, shared, w = g.view_selected_blocks(order), True, sel
    elif k == 3: r, shared, w = BlockGf(name_list=list(ns), block_list=[x for _, x in g], make_copies=True), False, list(ns)
    elif k == 4: r, shared, w = BlockGf(name_block_generator=[(n, x) for n, x in g]), True, list(ns)
    else: f, ar = g.__reduce__()[:2]; r, shared, w = f(*ar), True, list(ns); check(r.name == g.name, 'storage keeps the name')
    check_names(r, w); eq(r, {n: a[n] for n in w}, 'copies and views hold the blocks under their names'); c = s_cplx('c', -8, 8); r[w[-1]].data[...] = c; changed = dict(a); changed[w[-1]] = a[w[-1]] * 0 + c; eq(g, changed if shared else a, 'copies share nothing and views share everything'); check(throws(lambda: g.copy_selected_blocks(['nobody'])) and throws(lambda: g.view_selected_blocks(['nobody'])), 'unknown names are rejected')
@entry
def h_copy_from():
    ns = names(); sh = shapes(ns); g, h = bgf(ns, sh, 'g'), bgf(ns, sh, 'h'); b = data(h); g.copy_from(h); eq(g, b, 'assignment goes to the blocks of the same name'); [x.data.fill(0) for _, x in g]; eq(h, b, 'assignment shares nothing'); a = data(g); w = bgf(ns, {n: (3, 3) for n in ns[-1:]} | {n: sh[n] for n in ns[:-1]}, 'w'); check(throws(lambda: g.copy_from(w)), 'blocks of another shape are rejected'); eq(g, a, 'a rejected assignment changes nothing')
@entry
def h_maps():
    """operations that return a new function"""
    ns = names(); s0 = s_choice('shape', [(1, 1), (2, 2), ()]); sh = {n: s0 for n in ns}; g = bgf(ns, sh, 'g'); a = data(g); k = s_pick('op', 0, 8); T = lambda x: np_.transpose(x, (0, 2, 1)); keep = {n: x for n, x in g}
    if k == 0: r, w = g.conjugate(), per(ns, lambda n: np_.conj(a[n]))
    elif k == 1:
        if not s0: return
        r, w = g.transpose(), per(ns, lambda n: T(a[n]))
    elif k == 2: r, w = g.real, per(ns, lambda n: a[n].real)
    elif k == 3: r, w = g.imag, per(ns, lambda n: a[n].imag)
    elif k in (4, 5):
        if s0 == (2, 2): return
        [assume(OR(x.real != 0, x.imag != 0)) for n in ns for x in flat(a[n])] if not NATIVE else None
        if k == 4: r = g.inverse(); eq(g, a, 'the operands are left alone')
        else: g.invert(); r = g; check(all(g[n] is keep[n] for n in ns), 'in-place operations keep the blocks')
        w = per(ns, lambda n: 1 / a[n])
    elif k == 6: r, w = MB.map_block(lambda x: 2 * x, g), per(ns, lambda n: 2 * a[n])
    elif k == 7: v = MB.map_block(lambda x: x.data[0], g); check(len(v) == len(ns), 'a map visits every block in order'); [same(x, a[n][0], 'a map visits every block in order') for x, n in zip(v, ns)]; return
    else: g.zero(); r, w = g, per(ns, lambda n: a[n] * 0)
    check_names(r, ns); eq(r, w, 'a map acts on every block under its name')
    if k in (0, 1, 6): eq(g, a, 'the operands are left alone'); [x.data.fill(0) for _, x in r]; eq(g, a, 'results share nothing')
@entry
def h_density():
    ns = names(); g = bgf(ns, {n: (2, 2) for n in ns}, 'g'); d = g.density(); check(sorted(d) == sorted(ns), 'the density of every block under its name'); [same(d[n], density(g[n]), 'the density of every block under its name') for n in ns]; same(g.total_density(), sum(density(g[n])[i, i] for n in ns for i in range(2)), 'the total density sums the blocks'); 
    with warnings.catch_warnings(): warnings.simplefilter('ignore'); check(list(g.all_indices) == [(n, i, j) for n in ns for i in range(2) for j in range(2)], 'all indices in order')
@entry
def h_construct():
    m = ms(); gs = [('up', 2), ('down', s_pick('n', 0, 2))]; tr = s_pick('rank', 0, 2); ex = s_flag('explicit'); g = BlockGf(mesh=m, gf_struct=gs, target_rank=tr) if ex else BlockGf(mesh=m, gf_struct=gs); tr = tr if ex else 2; check_names(g, ['up', 'down']); 
    for n, k in gs: check(tuple(g[n].target_shape) == ((k,) * tr if k > 0 else ()), 'the shape of a block'); check(all(bool(x == 0) for x in g[n].data.flat), 'a new function is zero')
    b = [gf(m, (), 'b'), gf(m, (), 'b')]; G = BlockGf(block_list=b); check_names(G, ['0', '1']); check(G['0'] is b[0] and G['1'] is b[1], 'given blocks are used in place'); check(throws(lambda: BlockGf(name_list=['a', 'a'], block_list=b)), 'repeated names are rejected'); check(throws(lambda: BlockGf(name_list=['a'], block_list=b)), 'wrong numbers of names are rejected'); check(throws(lambda: BlockGf(name_list=['__a', 'b'], block_list=b)), 'reserved names are rejected'); check(throws(lambda: BlockGf(block_list=[])), 'no blocks are rejected'); check(throws(lambda: BlockGf(foo=1)), 'wrong parameters are rejected')
    check(BG.fix_gf_struct_type([('a', [0, 1, 2]), ('b', [0])]) == [('a', 3), ('b', 1)] and BG.fix_gf_struct_type({'a': 2}) == [('a', 2)] and BG.fix_gf_struct_type(gs) == gs, 'old block structures are converted')
N2 = [(('up', 'down'), ('a', 'b')), (('b', 'a'), ('z', 'y', 'x')), (('q',), ('q',)), (('u', 'd'), ('u', 'd'))]
def prod2(n1, n2): return [(a, b) for a in n1 for b in n2]
def names2(G, ns): check(list(G.indices) == ns and [n for n, _ in G] == ns and len(G) == len(ns) and G.n_blocks == len(ns), 'the names of the blocks in order')
@entry
def h2_binary():
    n1, n2 = s_choice('names', N2); sh = s_choice('shape', [(), (2, 2)]); ns = prod2(n1, n2); g = b2gf(n1, n2, sh, 'g'); rv = s_flag('reversed'); h = b2gf(n1[::-1] if rv else n1, n2[::-1] if rv else n2, sh, 'h'); a, b = data(g), data(h); k = s_pick('op', 0, 2); op = OPS[k]; f = [operator.add, operator.sub, mul][k]; w = per(ns, lambda n: f(a[n], b[n])); r = op[1](g, h); eq(r, w, 'an operation acts on the blocks of the same name'); names2(r, ns); eq(g, a, 'the operands are left alone'); eq(h, b, 'the operands are left alone'); [x.data.fill(0) for _, x in r]; eq(g, a, 'results share nothing')
    keep = {n: x for n, x in g}; q = op[2](g, h); check(q is g and all(g[n] is keep[n] for n in ns), 'in-place operations keep the blocks'); eq(g, w, 'an operation acts on the blocks of the same name'); eq(h, b, 'the operands are left alone')
@entry
def h2_number():
    n1, n2 = s_choice('names', N2); sh = s_choice('shape', [(), (2, 2)]); ns = prod2(n1, n2); g = b2gf(n1, n2, sh, 'g'); a = data(g); c = s_real('c', -8, 8); k = s_pick('op', 0, 7); t = np_.eye(2) * c if sh else c
    if k == 0: r, w = g + c, per(ns, lambda n: a[n] + t)
    elif k == 1: r, w = c + g, per(ns, lambda n: a[n] + t)
    elif k == 2: r, w = g - c, per(ns, lambda n: a[n] - t)
    elif k == 3: r, w = c - g, per(ns, lambda n: t - a[n])
    elif k == 4: r, w = g * c, per(ns, lambda n: a[n] * c)
    elif k == 5: r, w = c * g, per(ns, lambda n: a[n] * c)
    elif k == 6: assume(OR(c > 0.1, c < -0.1)); r, w = g / c, per(ns, lambda n: a[n] * (1 / c))
    else: r, w = -g, per(ns, lambda n: a[n] * -1)
    eq(r, w, 'a number acts on every block'); names2(r, ns); eq(g, a, 'the operands are left alone')
@entry
def h2_assign():
    n1, n2 = s_choice('names', N2); ns = prod2(n1, n2); g = b2gf(n1, n2, (), 'g'); rv = s_flag('reversed'); h = b2gf(n1[::-1] if rv else n1, n2[::-1] if rv else n2, (), 'h'); a, b = data(g), data(h); k = s_pick('how', 0, 3); n0 = ns[-1]; st = {n: x.data for n, x in g}
    if k == 0: g << h; w = b
    elif k == 1: g[n0] = h[n0]; w = dict(a); w[n0] = b[n0]
    elif k == 2: c = s_real('c', -8, 8); g << c; w = per(ns, lambda n: a[n] * 0 + c)
    else: z = np_.array([x.value.value for x in g[n0].mesh]); g << D.Omega; w = per(ns, lambda n: z)
    eq(g, w, 'assignment goes to the blocks of the same name'); eq(h, b, 'the operands are left alone'); check(all(g[n].data is st[n] for n in ns), 'assignment keeps the storage'); check(throws(lambda: g['nobody', n2[0]], IndexError), 'unknown names are rejected'); check(throws(lambda: g.__setitem__((n1[0], 'nobody'), h[n0]), IndexError), 'unknown names are rejected')
@entry
def h2_copy():
    n1, n2 = s_choice('names', N2); ns = prod2(n1, n2); g = b2gf(n1, n2, (2, 2), 'g'); a = data(g); k = s_pick('how', 0, 5); s1 = [n for n in n1 if s_flag('select')] or [n1[0]]; s2 = [n for n in n2 if s_flag('select')] or [n2[0]]; sel = prod2(s1, s2); o1, o2 = s1[::-1], s2[::-1]
    if k == 0: r, shared, w = g.copy(), False, ns
    elif k == 1: r, shared, w = g.copy_selected_blocks(o1, o2), False, sel
    elif k == 2: r, shared, w = g.view_selected_blocks(o1, o2), True, sel
    elif k == 3: r, shared, w = Block2Gf(n1, n2, lambda x, y: g[x, y], make_copies=True), False, ns
    elif k == 4: r, shared, w = Block2Gf(n1, n2, [[g[x, y] for y in n2] for x in n1]), True, ns
    else: f, ar = g.__reduce__()[:2]; check(f.__name__ != '<lambda>', 'the function can be pickled'); r, shared, w = f(*ar), True, ns; check(r.name == g.name, 'storage keeps the name')
    names2(r, w); eq(r, {n: a[n] for n in w}, 'copies and views hold the blocks under their names'); c = s_cplx('c', -8, 8); r[w[-1]].data[...] = c; ch = dict(a); ch[w[-1]] = a[w[-1]] * 0 + c; eq(g, ch if shared else a, 'copies share nothing and views share everything'); check(throws(lambda: g.copy_selected_blocks(['nobody'], n2)) and throws(lambda: g.view_selected_blocks(n1, ['nobody'])), 'unknown names are rejected')
@entry
def h2_maps():
    n1, n2 = s_choice('names', N2); ns = prod2(n1, n2); g, h = b2gf(n1, n2, (), 'g'), b2gf(n1, n2, (), 'h'); a, b = data(g), data(h); k = s_pick('op', 0, 5)
    if k == 0: r, w = g.real, per(ns, lambda n: a[n].real)
    elif k == 1: r, w = g.imag, per(ns, lambda n: a[n].imag)
    elif k == 2: r, w = MB.map_block(lambda x: 2 * x, g), per(ns, lambda n: 2 * a[n])
    elif k == 3: v = MB.map_block(lambda x: x.data[0], g); check(len(v) == len(n1) and all(len(x) == len(n2) for x in v), 'a map visits every block in order'); [same(v[i][j], a[x, y][0], 'a map visits every block in order') for i, x in enumerate(n1) for j, y in enumerate(n2)]; return
    elif k == 4: g.zero(); r, w = g, per(ns, lambda n: a[n] * 0)
    else: g.copy_from(h); r, w = g, b
    names2(r, ns); eq(r, w, 'a map acts on every block under its name'); eq(h, b, 'the operands are left alone'); check(list(b2gf(n1, n2, (1, 2)).all_indices) == [(x, y, 0, j) for x in n1 for y in n2 for j in range(2)], 'all indices in order'); check(throws(lambda: Block2Gf(['a', 'a'], ['b'], [[1], [2]])) and throws(lambda: Block2Gf(['a'], ['__b'], [[1]])) and throws(lambda: Block2Gf(['a'], [], [[]])), 'repeated, reserved and missing names are rejected'); check(throws(lambda: MB.map_block(lambda x: x, 3)), 'other objects are rejected')
