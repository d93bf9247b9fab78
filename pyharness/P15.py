"""P15: windows and curves of the plot protocol."""
from pysym import *
from gfmodel import *
PR = load('triqs.plot.protocol'); PB = load('triqs.gf.plot.plot_base'); OV = load('triqs.gf.plot.one_var'); HI = load('triqs.stat.histogram')
def increasing(n, name='x'):
    e = []
    for i in range(n): e.append(s_real(name, -4, 4) if not e else e[-1] + s_real('d' + name, 0, 2))
    return e
def window(): a = s_real('xmin', -6, 6); return a, a + s_real('width', 0, 8)
def inside(x, w): return AND(x >= w[0], x <= w[1])
@entry
def h_clip():
    """the slice holds exactly the points inside"""
    n = s_pick('n', 0, 5 if THOROUGH else 4); x = increasing(n); w = window(); k = s_choice('kind', ['array', 'list', 'tuple', 'generator']); g = np_.array(x) if k == 'array' else list(x) if k == 'list' else tuple(x) if k == 'tuple' else (y for y in x); sl = PR.clip_array(g, *w); check(isinstance(sl, slice), 'a slice'); chosen = set(range(n)[sl])
    for i in range(n): check(inside(x[i], w) if i in chosen else NOT(inside(x[i], w)), 'exactly the points inside')
@entry
def h_clip_windows():
    """windows of no width and reversed ones"""
    n = s_pick('n', 1, 3); x = increasing(n); p = s_pick('p', 0, n - 1); sl = PR.clip_array(x, x[p], x[p]); check(p in range(n)[sl], 'the limits are inside'); a, d = s_real('a', -4, 4), s_real('d', 0.0001, 4); check(throws(lambda: PR.clip_array(x, a + d, a), AssertionError), 'reversed windows are rejected')
class Fn:
    def __init__(s, f): s.f = f
    def __call__(s, x): return s.f(x)
@entry
def h_protocol():
    """functions, sequences of pairs and objects with a plot of their own"""
    k = s_pick('kind', 0, 4); opt = {'color': 'r'}
    if k == 0:
        c = s_cplx('c', -4, 4) if s_flag('cplx') else s_real('c', -4, 4); f = Fn(lambda x: c * float(x)); n = s_pick('n', 1, 4); opt['n_points'] = n; lim = s_flag('limits')
        if lim: opt['x_window'] = (-1.0, 2.0)
        r = PR.plot_protocol_apply(f, opt, lambda: (0.0, 3.0)); X = flat(r[0]['xdata']); lo = -1.0 if lim else 0.0; close(np_.array(X), np_.array([lo + 3.0 * i / n for i in range(n)]), 'points of the window'); Y = [c * float(x) for x in X]
    elif k == 1:
        n = s_pick('n', 1, 3); X = [s_real('x', -4, 4) for i in range(n)]; Y = [s_cplx('y', -4, 4) for i in range(n)] if s_flag('cplx') else [s_real('y', -4, 4) for i in range(n)]; q = list(zip(X, Y)); r = PR.plot_protocol_apply(q if s_flag('list') else (z for z in q), opt, None); same(flat(r[0]['xdata']), X, 'every ordinate with its abscissa')
    elif k == 2:
        class P:
            def _plot_(s, o): return [o]
        check(PR.plot_protocol_apply(P(), opt, None) == [opt], 'the plot of the object'); return
    elif k == 3:
        class T: pass
        PR.plot_function_table[T] = lambda ob, o: [ob, o]; t = T(); check(PR.plot_protocol_apply(t, opt, None) == [t, opt], 'the registered plot'); return
    else: check(throws(lambda: PR.plot_protocol_apply(3, opt, None), RuntimeError), 'other objects are rejected'); return
    if any(isc(y) or isinstance(y, complex) for y in Y): check(len(r) == 2 and r[0]['label'][:3] == 'Re ' and r[1]['label'][:3] == 'Im ', 'real and imaginary parts'); same(flat(r[0]['ydata']), [y.real for y in Y], 'every ordinate with its abscissa'); same(flat(r[1]['ydata']), [y.imag for y in Y], 'every ordinate with its abscissa'); same(flat(r[1]['xdata']), X, 'every ordinate with its abscissa')
    else: check(len(r) == 1, 'one curve'); same(flat(r[0]['ydata']), Y, 'every ordinate with its abscissa')
class RealGf:
    """g with the element type of real data"""
    class D:
        dtype = __import__('numpy').dtype(float)
        def __init__(s, a): s.a = a
        def __getitem__(s, k): return s.a[k]
    def __init__(s, g): s.name, s.mesh, s.target_shape, s.data = g.name, g.mesh, g.target_shape, RealGf.D(g.data)
@entry
def h_curves():
    """Green's functions: one curve per matrix element and part, inside the window"""
    kind = s_choice('mesh', ['ImFreq', 'DLRImFreq', 'ReFreq', 'ImTime', 'ReTime', 'Legendre']); m = MeshReFreq(values=increasing(3)) if kind == 'ReFreq' else MeshDLRImFreq(2.0, 'Fermion', (-3, 0, 2)) if kind == 'DLRImFreq' else mesh(kind, 2); sh = s_choice('target', [(), (1, 1), (2, 2), (1, 2)]); real = kind == 'ImTime' and s_flag('real'); g = gf(m, sh, 'g', real); a = g.data.copy(); f = {'ImFreq': OV.imfreq, 'DLRImFreq': OV.dlr_imfreq, 'ReFreq': OV.refreq, 'ImTime': OV.imtime, 'ReTime': OV.retime, 'Legendre': OV.legendre}[kind]; mode = s_choice('mode', [None, 'R', 'I', 'S', 'X']); opt = {'name': 'nm', 'color': 'r'}; win = s_flag('window')
    if mode: opt['mode'] = mode
    if win: w = window(); opt['x_window'] = w
    xs = [x.imag for x in m.values()] if 'ImFreq' in kind else list(range(len(m))) if kind == 'Legendre' else list(m.values()); xs = [x.real if isc(x) or isinstance(x, complex) else x for x in xs]
    if not real and (mode == 'X' or mode == 'S' and kind != 'ReFreq'): check(throws(lambda: f(g, opt), ValueError), 'other modes are rejected'); return
    r = f(g if not real or pysym.NATIVE else RealGf(g), opt); parts = [''] if real else ['Re ', 'Im '] if not mode else [{'R': 'Re ', 'I': 'Im ', 'S': ''}[mode]]; idx = [()] if not sh else [(i, j) for i in range(sh[0]) for j in range(sh[1])]; check(len(r) == len(parts) * len(idx), 'one curve per matrix element and part'); by = {c['label']: c for c in r}; check(len(by) == len(r), 'different labels')
    for p in parts:
        for ix in idx:
            c = by['%snm %s' % (p, '_'.join(map(str, ix)))]; y = [a[(k,) + ix] for k in range(len(m))]; y = y if real else [v.real for v in y] if p == 'Re ' else [v.imag for v in y] if p == 'Im ' else [v.imag * (-1 / math.pi) for v in y]; n = len(c['xdata']); lo = 0
            if win:
                ins = [bool(inside(x, w)) for x in xs]; keep = [k for k in range(len(xs)) if ins[k]]
            else: keep = list(range(len(xs)))
            same(flat(c['xdata']), [xs[k] for k in keep], 'exactly the points inside'); close(np_.array(flat(c['ydata'])), np_.array([y[k] for k in keep]), 'every ordinate with its abscissa') if keep else check(len(c['ydata']) == 0, 'exactly the points inside'); check(c['color'] == 'r' and 'x_window' not in c, 'other options are passed on')
    unchanged(g, flat(a))
@entry
def h_x_data_view():
    """points and data inside the window"""
    kind = s_choice('mesh', ['ImFreq', 'ReFreq', 'ImTime']); m = MeshReFreq(values=increasing(3)) if kind == 'ReFreq' else mesh(kind, 2); sh = s_choice('target', [(), (1, 1), (2, 2), (2,)]); g = gf(m, sh); a = g.data.copy(); win = s_flag('window'); w = window() if win else None; fl = s_flag('flatten'); X, Y = g.x_data_view(w, fl) if win else g.x_data_view(flatten_y=fl); xs = [p.value.imag if kind == 'ImFreq' else p.value for p in m]; keep = [k for k in range(len(xs)) if not win or bool(inside(xs[k], w))]
    same(flat(X), [xs[k] for k in keep], 'exactly the points inside'); same(flat(Y), [v for k in keep for v in flat(a[k])], 'the data of the points'); check(tuple(Y.shape) == (len(keep),) + (() if fl and sh == (1, 1) else sh), 'shape of the data')
@entry
def h_histogram():
    n = s_pick('n', 2, 4); lo = s_real('lo', -4, 4); hi = lo + s_real('w', 0.125, 4); d = s_array('d', (n,), 0, 8)
    class H:
        limits = (lo, hi); data = d
        def __len__(s): return n
    bar = s_flag('bar'); opt = {'color': 'r'}; wd = None
    if bar: opt['type'] = 'bar'
    elif s_flag('explicit'): opt['type'] = 'XY'
    if bar and s_flag('width'): wd = s_real('width', 0.125, 1); opt['width'] = wd
    if s_flag('label'): opt['label'] = 'mine'
    lab = opt.get('label', 'Histogram'); r = HI.plot(H(), opt); check(len(r) == 1, 'one curve'); c = r[0]; b = (hi - lo) / (n - 1) if wd is None else wd; close(np_.array(flat(c['xdata'])), np_.array([lo + (hi - lo) * i / (n - 1) - (b / 2 if bar else 0) for i in range(n)]), 'the centres of the bins'); same(flat(c['ydata']), flat(d), 'every ordinate with its abscissa'); check(c['label'] == lab and c['color'] == 'r' and c['plot_function'] == ('bar' if bar else 'plot'), 'options')
    if bar: close(c['width'], b, 'width of the bars')
