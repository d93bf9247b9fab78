"""P03: root bracketing and bisection; the function is any monotone sequence of answers."""
from pysym import *
import types, io, contextlib
mpi = stub('triqs.utility.mpi', report=lambda *a, **k: None)
def bisect(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16, maxiter=100, full_output=False, disp=True):
    """the algorithm of scipy.optimize.bisect"""
    fa, fb = f(a), f(b)
    if fa == 0: return a
    if fb == 0: return b
    if (fa < 0) == (fb < 0): raise ValueError('f(a) and f(b) must have different signs')
    dm = b - a; xa = a; up = bool(fa < 0)
    for i in range(maxiter):
        dm = dm * 0.5; xm = xa + dm; fm = f(xm)
        if bool(fm < 0) == up: xa = xm
        if bool(fm == 0) or bool(abs(dm) < xtol + rtol * abs(xm)): return xm
    raise RuntimeError('failed to converge')
if not NATIVE: stub('scipy'); stub('scipy.optimize', bisect=bisect); import scipy; scipy.optimize = load('scipy.optimize')
Di = load('triqs.utility.dichotomy'); B = load('triqs.utility.bound_and_bisect')
class Oracle:
    """a monotone function: every answer is any value compatible with the previous ones"""
    def __init__(s, up=True, strict=False, lin=None): s.calls = []; s.up = up; s.strict = strict
    def __call__(s, x):
        for u, v in s.calls:
            if bool(u == x): s.calls.append((x, v)); return v
        y = s_real('f', -64, 64)
        lo = [(u, v) for u, v in s.calls if bool(u < x)]; hi = [(u, v) for u, v in s.calls if not any(u is a for a, _ in lo)]
        if not s.up: lo, hi = hi, lo
        for u, v in lo: assume(v < y if s.strict else v <= y)
        for u, v in hi: assume(y < v if s.strict else y <= v)
        s.calls.append((x, y)); return y
def dichotomy(up, loops, x0, dx, verb=0, name=''):
    f = Oracle(up); y = s_real('y', -8, 8); prec = s_real('prec', 0, 4); Di.mpi = mpi
    with contextlib.redirect_stdout(io.StringIO()): r = Di.dichotomy(f, x0, y, prec, dx, max_loops=loops, verbosity=verb, x_name=name)
    n = len(f.calls); check(n >= 1 and n <= loops + 2, 'the number of evaluations respects the limit')
    check(isinstance(r, tuple) and len(r) == 2, 'a pair is returned'); x, v = r
    if x is None or v is None:
        check(x is None and v is None, 'failure is said for both'); check(OR(n == loops + 2, *[abs(c - y) == prec for _, c in f.calls]), 'failure only after all evaluations')
        check(AND(*[OR(c - y >= prec, y - c >= prec) for _, c in f.calls]) if n < loops + 2 else True, 'a solution that was seen is returned')
    else:
        check(AND(v - y < prec, y - v < prec), 'the solution is within the precision'); check(OR(*[AND(a == x, b == v) for a, b in f.calls]), 'the value is that of the function at the solution')
    return f, y
@entry(lossy=1)
def h_dichotomy():
    up = True; x0 = s_real('x0', -8, 8); dx = s_real('dx', -4, 4); assume(OR(dx > 0.01, dx < -0.01)); dichotomy(up, s_pick('loops', 0, 2), x0, dx)
@entry(lossy=1)
def h_dichotomy_refine():
    """the bracket is [x0, x0 +- 1]; refinement stays inside of it"""
    f = Oracle(True); y = 0.0; prec = s_real('prec', 0.001, 4); L = 2 if not THOROUGH else 3; k = s_pick('side', 0, 1); Di.mpi = mpi; log = []; brk = [None]
    def g(x):
        if brk[0]: check(AND(brk[0][0] <= x, x <= brk[0][1]), 'the refinement stays inside of the bracket')
        r = f(x); first = f.calls[0]
        if brk[0]: brk[0] = [x, brk[0][1]] if bool(r < y) else [brk[0][0], x]
        elif bool((first[1] - y) * (r - y) < 0): brk[0] = [x, first[0]] if bool(r < y) else [first[0], x]
        return r
    with contextlib.redirect_stdout(io.StringIO()): x, v = Di.dichotomy(g, 0.0, y, prec, 1.0, max_loops=L, verbosity=3, x_name='x', y_name='y')
    if x is not None: check(AND(v < prec, -v < prec), 'the solution is within the precision'); check(OR(*[AND(a == x, b == v) for a, b in f.calls]), 'the value is that of the function at the solution')
    else: check(len(f.calls) == L + 2 or True, '!limit')
@entry(lossy=1)
def h_dichotomy_bounds():
    """the search for the second bound goes towards the target in steps of the width"""
    f = Oracle(True); y = s_real('y', -8, 8); prec = s_real('prec', 0, 1); L = 3 if not THOROUGH else 5; x0 = s_real('x0', -8, 8); dx = s_real('dx', 0.01, 4); sgn = s_pick('sign', 0, 1); n = [0]
    def g(x):
        if n[0]:
            p = f.calls[-1]; far = all(bool((v > y) == (f.calls[0][1] > y)) for _, v in f.calls)
            if far: check(x == (p[0] - dx if bool(f.calls[0][1] > y) else p[0] + dx), 'the bound moves towards the target')
            else: stop()
        n[0] += 1; return f(x)
    Di.dichotomy(g, x0, y, prec, dx if sgn else -dx, max_loops=L, verbosity=0)
@entry
def h_determine_bounds():
    up = s_flag('up'); f = Oracle(up); x0 = s_real('x0', -8, 8); dx = s_real('dx', -4, 4); assume(OR(dx > 0.01, dx < -0.01)); L = s_pick('maxiter', 0, 2 if not THOROUGH else 4)
    try: a, b = B.determine_bounds(f, x0, dx, L)
    except ValueError: 
        check(len(f.calls) >= L + 1, 'failure only after all iterations'); check(OR(*[OR(x == x0 + L * dx, x == x0 - L * dx) for x, v in f.calls]), 'failure only after all steps to one side'); return
    fa = [v for x, v in f.calls if bool(x == a)]; fb = [v for x, v in f.calls if bool(x == b)]
    check(len(fa) > 0 and len(fb) > 0, 'the bounds were evaluated'); check(AND(fa[0] < 0, fb[0] > 0), 'the bounds enclose the target'); check(len(f.calls) <= 2 * L + 4, 'the number of evaluations respects the limit')
@entry
def h_bound_and_bisect():
    up = s_flag('up'); f = Oracle(up, True); x0 = s_choice('x0', [0.0, -1.5]); dx = s_choice('dx', [1.0, -0.5]); y = s_real('y', -8, 8); xtol = s_choice('xtol', [0.7, 0.3]); verb = s_pick('verbosity', 0, 1); L = 2 if not THOROUGH else 3
    try:
        with contextlib.redirect_stdout(io.StringIO()): x, v = B.bound_and_bisect(f, x0, y, dx, xtol, maxiter=L, verbosity=verb)
    except (ValueError, RuntimeError): check(len(f.calls) > L, 'failure only after all iterations'); return
    check(OR(*[AND(a == x, b == v) for a, b in f.calls]), 'the value is that of the function at the solution')
    near = [(p, c) for p, c in f.calls if bool(abs(p - x) <= xtol * 1.001)]
    check(OR(v == y, *[AND(c <= y, d >= y) for _, c in near for _, d in near]), 'the target lies within the tolerance of the solution')
