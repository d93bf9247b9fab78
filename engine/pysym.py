"""Symbolic executor for the Python sources of the repository.

The real modules are imported from the repository and run by the Python interpreter on proxy objects: a number is a
ratio of polynomials (exact coefficients) over solver variables, a comparison is a formula.  A branch on a formula asks
Z3 which outcomes the path condition allows and the execution is repeated once per feasible outcome (depth first), so
every path is visited; every assertion is a Z3 query "path condition and not assertion".  In native mode the same
harness runs on the numbers of a counterexample with plain numbers and the unmodified numpy.

usage: pysym.py list HARNESS TIER | run HARNESS ENTRY OUT TIER BUDGET | native HARNESS ENTRY INPUTS TIER
"""
import sys, os, json, time, ast, types, builtins, importlib, importlib.util, importlib.abc, importlib.machinery, math, numbers, traceback
from fractions import Fraction as Fr
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
import numpy as np
sys.modules.setdefault('pysym', sys.modules[__name__])
NATIVE = False; TIER = 'quick'; THOROUGH = False

class EngineStop(BaseException): pass
class Unsupported(EngineStop): pass
class Infeasible(EngineStop): pass
class PathEnd(EngineStop): pass
class OutOfTime(EngineStop): pass
class NativeFail(BaseException): pass

# ---------------------------------------------------------------------------------------------- the engine
class Engine:
    def __init__(s, budget, opts):
        import z3; s.z3 = z3; s.t0 = time.time(); s.budget = budget; s.retried = 0.; s.prefix = []; s.paths = 0; s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.solver_s = 0.
        s.obl = 0; s.dis = 0; s.concrete = 0; s.asserts = {}; s.violations = []; s.vseen = {}; s.errors = {}; s.opts = opts; s.timeout = int(opts.get('timeout', 20000)); s.pending = None
    def begin(s):
        z3 = s.z3; s.pos = 0; s.vars = []; s.inputs = []; s.bounds = {}; s.solver = z3.SolverFor('QF_NRA') if s.opts.get('nra') else z3.Solver(); s.solver.set('timeout', s.timeout); s.rules = {}; s.trace = []; s.pending = None; s.cons = []
    def fatal(s, x): s.pending = x; raise x
    def var(s, name, isint, lo=None, hi=None):
        z3 = s.z3; i = len(s.vars); n = '%s!%d' % (name, i); v = z3.Int(n) if isint else z3.Real(n); s.vars.append(v); s.bounds[i] = (lo, hi)
        if lo is not None: s.add(v >= s.num(lo))
        if hi is not None: s.add(v <= s.num(hi))
        return i
    def num(s, x):
        x = Fr(x); return s.z3.IntVal(x.numerator) if x.denominator == 1 else s.z3.Q(x.numerator, x.denominator)
    def add(s, c): s.solver.add(c); s.cons.append(c)
    def ask(s, *c):
        if time.time() - s.t0 > s.budget: s.fatal(OutOfTime())
        t = time.time(); r = s.solver.check(*c)
        if r == s.z3.unknown and not s.opts.get('nofallback'):
            for tac, f in (('qfnra-nlsat', 1), ('smt', 1), ('qfnra-nlsat', 3), ('smt', 3)): # the longer second round covers a loaded machine
                left = s.budget - (time.time() - s.t0) - 10
                if f > 1 and (s.retried > 300 or left < 10): break
                t1 = time.time(); k = s.z3.Tactic(tac).solver() if tac != 'smt' else s.z3.Solver(); k.set('timeout', int(min(s.timeout * f, max(left, 10) * 1000))); k.add(*s.cons); k.add(*c)
                try: r = k.check()
                except s.z3.Z3Exception: continue
                finally:
                    if f > 1: s.retried += time.time() - t1
                if r != s.z3.unknown: s.last = k; break
        else: s.last = s.solver
        s.solver_s += time.time() - t; s.queries += 1
        if r == s.z3.sat: s.sat += 1
        elif r == s.z3.unsat: s.unsat += 1
        else: s.unknown += 1
        return r
    def branch(s, c):
        z3 = s.z3
        if s.pos < len(s.prefix): v = s.prefix[s.pos][0]; s.pos += 1; s.add(c if v else z3.Not(c)); return v
        t = s.ask(c) != z3.unsat
        f = True if not t else s.ask(z3.Not(c)) != z3.unsat
        if not t and not f: s.fatal(Infeasible())
        v = t
        s.prefix.append([v, [False] if (t and f) else []]); s.pos += 1; s.add(c if v else z3.Not(c)); return v
    def pick(s, lo, hi):
        if s.pos < len(s.prefix): v = s.prefix[s.pos][0]; s.pos += 1; return v
        s.prefix.append([lo, list(range(lo + 1, hi + 1))]); s.pos += 1; return lo
    def concretise(s, x):
        """fork over the feasible values of an integer"""
        z3 = s.z3
        for _ in range(int(s.opts.get('maxvals', 400))):
            e = z3poly(x.n)
            if s.pos < len(s.prefix) and s.prefix[s.pos][2:]: v = s.prefix[s.pos][2]
            else:
                if s.ask() != z3.sat: s.fatal(Infeasible() if s.unsat else Unsupported('no model for an index'))
                v = s.last.model().eval(e, model_completion=True); v = v.as_long() if z3.is_int_value(v) else v.as_fraction(); v = int(v) if v == int(v) else s.fatal(Unsupported('non-integer index'))
                more = s.ask(e != v) != z3.unsat
                s.prefix.append([True, [False] if more else [], v])
            b = s.prefix[s.pos][0]; s.pos += 1
            s.add(e == v if b else e != v)
            if b: return v
        s.fatal(Unsupported('too many values of an index'))
    def next(s):
        while s.prefix:
            d = s.prefix[-1]
            if d[1]: d[0] = d[1].pop(0); return True
            s.prefix.pop()
        return False
    def error(s, m): s.errors[m] = s.errors.get(m, 0) + 1
    def model(s, m):
        out = []
        for name, kind, e in s.inputs:
            if kind == 'pick': out.append([name, kind, e]); continue
            v = m.eval(s.vars[e], model_completion=True)
            if s.z3.is_int_value(v): x = v.as_long()
            elif s.z3.is_rational_value(v): x = v.as_fraction(); x = str(x)
            else: a = v.approx(30); x = str(a.as_fraction())
            out.append([name, kind, x])
        return out
    def violate(s, id, kind, msg, m):
        k = (id, kind); s.vseen[k] = s.vseen.get(k, 0) + 1
        if s.vseen[k] <= 8: s.violations.append({'id': id, 'kind': kind, 'msg': msg, 'inputs': s.model(m) if m is not None else [], 'stack': traceback.format_stack(limit=12)[:-2][-8:]})
    def prove(s, c, id):
        """c: bool or z3 formula"""
        s.asserts[id] = s.asserts.get(id, 0) + 1; s.obl += 1; z3 = s.z3
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        if c is True: s.concrete += 1; s.dis += 1; return
        if c is False:
            r = s.ask()
            if r == z3.sat: s.violate(id, 'assert', 'assertion is false', s.last.model()); s.fatal(PathEnd())
            if r == z3.unsat: s.fatal(Infeasible())
            s.error('assertion undecided: ' + id); return
        r = s.ask(z3.Not(c))
        if r == z3.unsat: s.dis += 1
        elif r == z3.sat: s.violate(id, 'assert', 'assertion can be false', s.last.model())
        else: s.error('assertion undecided: ' + id)
        s.add(c)
E = None

# ---------------------------------------------------------------------------------------------- numbers
# polynomial: dict  monomial (sorted tuple of variable numbers) -> int or Fraction
def pconst(c): return {(): c} if c else {}
def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m + n if not m or not n else tuple(sorted(m + n)); x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
ONE = {(): 1}
def z3poly(p):
    z3 = E.z3
    if not p: return z3.IntVal(0)
    ts = []
    for m, c in p.items():
        f = [E.vars[i] for i in m]
        if isinstance(c, Fr) and c.denominator == 1: c = c.numerator
        if c != 1 or not f: f.insert(0, z3.IntVal(c) if isinstance(c, int) else z3.Q(c.numerator, c.denominator))
        t = f[0]
        for g in f[1:]: t = t * g
        ts.append(t)
    r = ts[0]
    return r if len(ts) == 1 else z3.Sum(ts)
def isnum(x): return isinstance(x, (int, float, Fr, np.integer, np.floating, np.bool_)) 
def exact(x):
    if isinstance(x, (bool, np.bool_)): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, np.integer): return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x): E.fatal(Unsupported('arithmetic with inf/nan'))
        f = Fr(x); return f.numerator if f.denominator == 1 else f
    return x
def reduce_(p):
    """apply the polynomial identities of roots, sines and cosines: pattern -> polynomial"""
    R = E.rules; todo = dict(p); out = {}
    while todo:
        m, c = todo.popitem(); hit = None
        for v in m:
            for pat, q in R.get(v, ()):
                l = list(m)
                try:
                    for x in pat: l.remove(x)
                except ValueError: continue
                hit = (tuple(l), q); break
            if hit: break
        if not hit:
            x = out.get(m, 0) + c
            if x: out[m] = x
            else: out.pop(m, None)
            continue
        for k, d in hit[1].items():
            t = tuple(sorted(hit[0] + k)); x = todo.get(t, 0) + c * d
            if x: todo[t] = x
            else: todo.pop(t, None)
    return out
def rule(pat, q): E.rules.setdefault(pat[0], []).append((tuple(pat), q))
def mk(n, d=ONE, isint=False):
    if E.rules:
        n = reduce_(n)
        if d is not ONE: d = reduce_(d); 
        if d is not ONE and not d: raise ZeroDivisionError
    if d is not ONE:
        if len(d) == 1 and () in d: n = pscale(n, Fr(1) / d[()]); d = ONE
        elif not n: d = ONE
        elif n == d: return 1 if isint else 1.0
        else:
            # common monomial factor of a single-term denominator
            if len(d) == 1:
                (dm, dc), = d.items(); com = list(dm)
                for m in n:
                    mm = list(m); keep = []
                    for v in com:
                        if v in mm: mm.remove(v); keep.append(v)
                    com = keep
                    if not com: break
                if com:
                    def strip(m):
                        m = list(m)
                        for v in com: m.remove(v)
                        return tuple(m)
                    n = {strip(m): c for m, c in n.items()}; d = {strip(dm): dc}
                    if () in d: n = pscale(n, Fr(1) / d[()]); d = ONE
    if d is ONE and (not n or (len(n) == 1 and () in n)):
        c = n.get((), 0)
        if isint: return int(c)
        f = Fr(c); x = float(f)
        if Fr(x) == f: return x
        return Sym(n, ONE, False)          # a constant that is not a double stays exact
    return Sym(n, d, isint)
def parts(x):
    if isinstance(x, Sym): return x.n, x.d
    return pconst(exact(x)), ONE
def wholeint(x): return x.isint if isinstance(x, Sym) else isinstance(x, (int, np.integer, np.bool_)) 
def add2(a, b, k):
    (n, d), (m, e) = parts(a), parts(b); i = wholeint(a) and wholeint(b)
    if d is ONE and e is ONE: return mk(padd(n, m, k), ONE, i)
    if d == e: return mk(padd(n, m, k), d, i)
    return mk(padd(pmul(n, e), pmul(m, d), k), pmul(d, e), i)
def mul2(a, b):
    (n, d), (m, e) = parts(a), parts(b)
    if d is not ONE and d == m: return mk(n, e, False)
    if e is not ONE and e == n: return mk(m, d, False)
    return mk(pmul(n, m), ONE if d is ONE and e is ONE else pmul(d, e), wholeint(a) and wholeint(b))
def div2(a, b):
    (n, d), (m, e) = parts(a), parts(b)
    if isinstance(b, Sym):
        if not (len(m) == 1 and () in m) and bool(b == 0): raise ZeroDivisionError('division by zero')
    elif b == 0: raise ZeroDivisionError('division by zero')
    if d == e: return mk(n, m, False)
    return mk(pmul(n, e), pmul(d, m), False)
def cmp2(a, b, op):
    if op != '==':
        if isinstance(a, Lazy) and a._v is None: return a.below(b, op)
        if isinstance(b, Lazy) and b._v is None: return b.above(a, op)
    x = add2(a, b, -1); z3 = E.z3
    if not isinstance(x, Sym): return {'<': x < 0, '<=': x <= 0, '==': x == 0}[op]
    if x.d is ONE and len(x.n) == 1 and () in x.n: c = x.n[()]; return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
    if op == '==': return SymBool(z3poly(x.n) == 0)
    e = z3poly(x.n if x.d is ONE else pmul(x.n, x.d)); return SymBool(e < 0 if op == '<' else e <= 0)
def special(b): return isinstance(b, (float, np.floating)) and not math.isfinite(b)
def floordivmod(a, b):
    if isinstance(b, Sym) and b.isconst(): b = exact(b.const())
    if not isinstance(b, Sym) and b == 0: raise ZeroDivisionError('integer division or modulo by zero')
    if isinstance(b, Sym) and bool(b == 0): raise ZeroDivisionError('integer division or modulo by zero')
    pos = bool(b > 0); i = wholeint(a) and wholeint(b)
    q = Sym({(E.var('q', True),): 1}, ONE, True); r = a - q * b
    for c in ((r >= 0, r < b) if pos else (r <= 0, r > b)): 
        if isinstance(c, SymBool): E.add(c.e)
        elif not c: E.fatal(Infeasible())
    return (q, r)
class Sym:
    __slots__ = ('n', 'd', 'isint'); __array_priority__ = 1
    def __init__(s, n, d, isint): s.n = n; s.d = d; s.isint = isint
    def isconst(s): return s.d is ONE and (not s.n or (len(s.n) == 1 and () in s.n))
    def const(s): return s.n.get((), 0)
    def __add__(a, b): return add2(a, b, 1) if isinstance(b, Sym) or (isnum(b) and not special(b)) else (b if isnum(b) else (SymC(a, 0) + b if isc(b) else NotImplemented))
    __radd__ = __add__
    def __sub__(a, b): return add2(a, b, -1) if isinstance(b, Sym) or (isnum(b) and not special(b)) else (-b if isnum(b) else (SymC(a, 0) - b if isc(b) else NotImplemented))
    def __rsub__(a, b): return add2(b, a, -1) if isnum(b) and not special(b) else (b if isnum(b) else (SymC(-a, 0) + b if isc(b) else NotImplemented))
    def __mul__(a, b): return mul2(a, b) if isinstance(b, Sym) or isnum(b) else (SymC(a, 0) * b if isc(b) else NotImplemented)
    __rmul__ = __mul__
    def __truediv__(a, b):
        if isinstance(b, Sym): return div2(a, b)
        if isnum(b): return 0.0 if special(b) and b == b else div2(a, b)
        return SymC(a, 0) / b if isc(b) else NotImplemented
    def __rtruediv__(a, b): return div2(b, a) if isnum(b) else (SymC.of(b) / a if isc(b) else NotImplemented)
    def __floordiv__(a, b): return floordivmod(a, b)[0] if isinstance(b, Sym) or isnum(b) else NotImplemented
    def __mod__(a, b): return floordivmod(a, b)[1] if isinstance(b, Sym) or isnum(b) else NotImplemented
    def __divmod__(a, b): return floordivmod(a, b)
    def __rfloordiv__(a, b): return floordivmod(b, a)[0]
    def __rmod__(a, b): return floordivmod(b, a)[1]
    def __neg__(a): return mk(pscale(a.n, -1), a.d, a.isint)
    def __pos__(a): return a
    def __abs__(a): return -a if a.isconst() and a.const() < 0 else a if a.isconst() else LazyAbs(a)
    def __pow__(a, b):
        if isinstance(b, Sym): b = b.__index__() if b.isint else E.fatal(Unsupported('symbolic exponent'))
        if isc(b) and b.imag == 0: b = b.real
        if b == int(b):
            b = int(b); r = 1 if a.isint else 1.0
            for _ in range(abs(b)): r = r * a
            return r if b >= 0 else 1.0 / r
        if b == 0.5: return a.sqrt()
        E.fatal(Unsupported('power'))
    def __rpow__(a, b):
        if a.isint: return b ** a.__index__()
        if a.isconst(): return b ** float(Fr(a.const()))
        E.fatal(Unsupported('power'))
    def __lt__(a, b): return (b > 0) if special(b) else cmp2(a, b, '<') if not isc(b) and ok(b) else NotImplemented
    def __le__(a, b): return (b > 0) if special(b) else cmp2(a, b, '<=') if not isc(b) and ok(b) else NotImplemented
    def __gt__(a, b): return (b < 0) if special(b) else cmp2(b, a, '<') if not isc(b) and ok(b) else NotImplemented
    def __ge__(a, b): return (b < 0) if special(b) else cmp2(b, a, '<=') if not isc(b) and ok(b) else NotImplemented
    def __eq__(a, b):
        if special(b): return False
        if isc(b): return SymC(a, 0) == b
        return cmp2(a, b, '==') if ok(b) else NotImplemented
    def __ne__(a, b):
        r = a.__eq__(b); return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)
    def __bool__(a): return bool(a != 0)
    def __index__(a):
        if not a.isint: raise TypeError("'float' object cannot be interpreted as an integer")
        return E.concretise(a)
    def __int__(a):
        if a.isint: return E.concretise(a)
        return trunc(a).__index__()
    def __float__(a):
        if a.isconst(): return float(Fr(a.const()))
        if a.isint and not E.opts.get('lossy'): return float(E.concretise(a))
        if E.opts.get('lossy'): return float('nan')
        E.fatal(Unsupported('conversion of a symbolic number to a machine float'))
    def __hash__(a):
        if a.isint: return hash(E.concretise(a))
        if a.isconst(): return hash(a.const())
        E.fatal(Unsupported('hash of a symbolic real'))
    def __round__(a, nd=None): 
        if nd: E.fatal(Unsupported('round'))
        return rnd(a)
    def __trunc__(a): return trunc(a)
    def __floor__(a): return floor(a)
    def __ceil__(a): return -floor(-a)
    def __repr__(a): return '<%s>' % (' + '.join('%s*%s' % (c, '*'.join(str(E.vars[i]) for i in m)) for m, c in list(a.n.items())[:4]) if E else '?')
    def __str__(a): return repr(a)
    def __format__(a, f): return repr(a)
    @property
    def real(a): return a
    @property
    def imag(a): return 0 if a.isint else 0.0
    @property
    def shape(a): return ()
    @property
    def size(a): return 1
    @property
    def ndim(a): return 0
    def conjugate(a): return a
    conj = conjugate
    def item(a): return a
    def copy(a): return a
    def is_integer(a): return a.isint or (a == floor(a))
    def astype(a, t): return SymC(a, 0) if t is builtins.complex else a
    def sqrt(a):
        if a.isconst(): return math.sqrt(a.const())
        if bool(a < 0): return SymC(0, (-a).sqrt())
        i = E.var('sqrt', False, 0); y = Sym({(i,): 1}, ONE, False); c = (y * y == a); 
        if isinstance(c, SymBool): E.add(c.e)
        if a.d is ONE: rule((i, i), a.n)
        return y
    def __copy__(a): return a
    def __deepcopy__(a, memo): return a
class Lazy(Sym):
    """a non-polynomial number whose comparisons need no case distinction; any other use computes it"""
    __slots__ = ('x', '_v')
    def __repr__(s): return '<%s>' % type(s).__name__
    __str__ = __repr__
    def __init__(s, x): s.x = x; s._v = None
    @property
    def v(s):
        if s._v is None: s._v = s.value()
        return s._v
    n = property(lambda s: parts(s.v)[0]); d = property(lambda s: parts(s.v)[1]); isint = property(lambda s: s.whole())
class LazyAbs(Lazy):
    """|x|"""
    __slots__ = ()
    def value(s): return s.x if s.x >= 0 else -s.x
    def whole(s): return s.x.isint
    def below(s, b, op): return AND(cmp2(s.x, b, op), cmp2(-s.x, b, op))
    def above(s, b, op): return OR(cmp2(b, s.x, op), cmp2(b, -s.x, op))
    def __abs__(s): return s
class LazyMod(Lazy):
    """the square root of x >= 0"""
    __slots__ = ()
    def value(s): return s.x.sqrt()
    def whole(s): return False
    def sq(s, b): return b.x if isinstance(b, LazyMod) else mul2(b, b) if isinstance(b, Sym) else exact(b) * exact(b)
    def below(s, b, op): return AND(cmp2(0, b, op), cmp2(s.x, s.sq(b), op))
    def above(s, b, op): return OR(cmp2(b, 0, op), cmp2(s.sq(b), s.x, op))
    def __abs__(s): return s
class LazyMax(Lazy):
    """the largest of several numbers"""
    __slots__ = ()
    def value(s):
        b = None
        for x in s.x: b = x if b is None or bool(x > b) else b
        return b
    def whole(s): return all(wholeint(x) for x in s.x)
    def below(s, b, op): return AND(*[cmp2(x, b, op) for x in s.x])
    def above(s, b, op): return OR(*[cmp2(b, x, op) for x in s.x])
class LazyMin(LazyMax):
    """the smallest"""
    __slots__ = ()
    def value(s):
        b = None
        for x in s.x: b = x if b is None or bool(x < b) else b
        return b
    def below(s, b, op): return OR(*[cmp2(x, b, op) for x in s.x])
    def above(s, b, op): return AND(*[cmp2(b, x, op) for x in s.x])
def ok(b): return isinstance(b, Sym) or isnum(b)
def floor(a):
    if not isinstance(a, Sym): return math.floor(a)
    if a.isint: return a
    q = Sym({(E.var('fl', True),): 1}, ONE, True)
    for c in (q <= a, a < q + 1): E.add(c.e) if isinstance(c, SymBool) else None
    return q
def trunc(a):
    if not isinstance(a, Sym): return math.trunc(a)
    if a.isint: return a
    return floor(a) if a >= 0 else -floor(-a)
def rnd(a):
    if a.isint: return a
    f = floor(a + Fr(1, 2)); t = (f - a) * 2
    if bool(t == 1) and bool(f % 2 == 1): return f - 1
    return f
class SymBool:
    __slots__ = ('e',); __array_priority__ = 1
    def __init__(s, e): s.e = e
    def __bool__(s):
        e = E.z3.simplify(s.e)
        if E.z3.is_true(e): return True
        if E.z3.is_false(e): return False
        return E.branch(e)
    def _o(s, o): return o.e if isinstance(o, SymBool) else E.z3.BoolVal(bool(o))
    def __and__(s, o): return SymBool(E.z3.And(s.e, s._o(o)))
    __rand__ = __and__
    def __or__(s, o): return SymBool(E.z3.Or(s.e, s._o(o)))
    __ror__ = __or__
    def __xor__(s, o): return SymBool(E.z3.Xor(s.e, s._o(o)))
    __rxor__ = __xor__
    def __invert__(s): return SymBool(E.z3.Not(s.e))
    def __eq__(s, o): return SymBool(s.e == s._o(o))
    def __ne__(s, o): return SymBool(s.e != s._o(o))
    def __int__(s): return int(bool(s))
    __index__ = __int__
    def __add__(s, o): return int(bool(s)) + o
    __radd__ = __add__
    def __mul__(s, o): return int(bool(s)) * o
    __rmul__ = __mul__
    def __hash__(s): return hash(bool(s))
    def all(s): return s
    any = all
    def logical_not(s): return ~s
def isc(x): return isinstance(x, (complex, np.complexfloating, SymC))
class SymC:
    __slots__ = ('real', 'imag'); __array_priority__ = 1
    def __init__(s, re, im): s.real = re; s.imag = im
    @staticmethod
    def of(x): return x if isinstance(x, SymC) else SymC(x.real, x.imag)
    def __add__(a, b):
        if not okc(b): return NotImplemented
        return cm(a.real + b.real, a.imag + b.imag)
    __radd__ = __add__
    def __sub__(a, b):
        if not okc(b): return NotImplemented
        return cm(a.real - b.real, a.imag - b.imag)
    def __rsub__(a, b):
        if not okc(b): return NotImplemented
        return cm(b.real - a.real, b.imag - a.imag)
    def __mul__(a, b):
        if not okc(b): return NotImplemented
        return cm(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real)
    __rmul__ = __mul__
    def __truediv__(a, b):
        if not okc(b): return NotImplemented
        if isinstance(b.imag, (int, float)) and b.imag == 0: return cm(a.real / b.real, a.imag / b.real)
        n = b.real * b.real + b.imag * b.imag; return cm((a.real * b.real + a.imag * b.imag) / n, (a.imag * b.real - a.real * b.imag) / n)
    def __rtruediv__(a, b):
        if not okc(b): return NotImplemented
        return SymC(b.real, b.imag) / a
    def __neg__(a): return SymC(-a.real, -a.imag)
    def __pos__(a): return a
    def __pow__(a, k):
        if isnum(k) and k == int(k):
            r = 1
            for _ in range(abs(int(k))): r = a * r
            return r if k >= 0 else 1 / r
        if k == 0.5: return a.sqrt()
        E.fatal(Unsupported('complex power'))
    def __abs__(a): r = a.real * a.real + a.imag * a.imag; return (math.sqrt(r.const()) if r.isconst() else LazyMod(r)) if isinstance(r, Sym) else math.sqrt(r)
    def sqrt(a):
        # principal root: x >= 0, y has the sign of the imaginary part
        x = Sym({(E.var('csx', False, 0),): 1}, ONE, False); y = Sym({(E.var('csy', False),): 1}, ONE, False)
        for c in (x * x - y * y == a.real, 2 * x * y == a.imag): E.add(c.e if isinstance(c, SymBool) else E.z3.BoolVal(c))
        E.add(E.z3.Or((x > 0).e, (y >= 0).e)); return SymC(x, y)
    def __eq__(a, b):
        if not okc(b): return NotImplemented
        r, i = a.real == b.real, a.imag == b.imag
        if r is False or i is False: return False
        return (r & i) if isinstance(r, SymBool) else (i if r is True and isinstance(i, SymBool) else r and bool(i) if not isinstance(i, SymBool) else i)
    def __ne__(a, b):
        r = a.__eq__(b); return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)
    def __bool__(a): return bool(a != 0)
    def conjugate(a): return SymC(a.real, -a.imag)
    conj = conjugate
    def item(a): return a
    def copy(a): return a
    shape = (); ndim = 0; size = 1
    def __complex__(a): return complex(float(a.real), float(a.imag))
    def __float__(a): raise TypeError("can't convert complex to float")
    def __hash__(a): return hash((a.real, a.imag))
    def __repr__(a): return '<%r,%r>' % (a.real, a.imag)
    def __format__(a, f): return repr(a)
    def __copy__(a): return a
    def __deepcopy__(a, memo): return a
def cm(re, im): return SymC(re, im)
def okc(b): return isinstance(b, (Sym, SymC, complex, np.complexfloating)) or isnum(b)
def issym(x): return isinstance(x, (Sym, SymC, SymBool))
numbers.Number.register(Sym); numbers.Number.register(SymC); numbers.Complex.register(SymC); numbers.Complex.register(Sym); numbers.Real.register(Sym)

# ---------------------------------------------------------------------------------------------- harness interface
ENTRIES = {}
def entry(f=None, **o):
    def d(g): ENTRIES[g.__name__] = (g, o); return g
    return d(f) if f else d
NAT = None
def _nat(name):
    i = NAT.pop(0)
    if i[0] != name: raise NativeFail('inputs out of step: %s for %s' % (i[0], name))
    return i[2]
def s_int(name='i', lo=None, hi=None):
    if NATIVE: return int(Fr(_nat(name)))
    i = E.var(name, True, lo, hi); E.inputs.append((name, 'int', i)); return Sym({(i,): 1}, ONE, True)
def s_real(name='x', lo=None, hi=None):
    if NATIVE: return float(Fr(_nat(name)))
    i = E.var(name, False, lo, hi); E.inputs.append((name, 'real', i)); return Sym({(i,): 1}, ONE, False)
def s_cplx(name='c', lo=None, hi=None):
    re = s_real(name, lo, hi); im = s_real(name, lo, hi); return complex(re, im) if NATIVE else SymC(re, im)
def s_pick(name, lo, hi):
    if NATIVE: return int(_nat(name))
    v = E.pick(lo, hi); E.inputs.append((name, 'pick', v)); return v
def s_flag(name='b'): return bool(s_pick(name, 0, 1))
def s_choice(name, seq): seq = list(seq); return seq[s_pick(name, 0, len(seq) - 1)]
def _f(c):
    if isinstance(c, np.ndarray) and c.ndim == 0: c = c.item()
    if isinstance(c, SymBool): return c.e
    if isinstance(c, (bool, np.bool_)): return bool(c)
    if isinstance(c, Sym): return (c != 0).e
    return bool(c)
def assume(c):
    c = _f(c)
    if NATIVE:
        if not c: raise NativeFail('assumption does not hold for these inputs')
        return
    if c is True: return
    if c is False: raise Infeasible()
    E.add(c)
    if E.pos >= len(E.prefix) and E.ask() == E.z3.unsat: raise Infeasible()
REACHED = {}
def check(c, id):
    c = _f(c)
    if NATIVE:
        REACHED[id] = 1
        if not c: print('NATIVE-FAIL %s' % id); sys.stdout.flush(); os._exit(77)
        return
    E.prove(c, id)
def flat(a):
    if isinstance(a, np.ndarray): return list(a.flat)
    if isinstance(a, (list, tuple)): return [y for x in a for y in flat(x)]
    return [a]
def shape(a): return np.shape(np.array(a, dtype=object))
def small(x, tol):
    """|x| <= tol, decided by the bounds of the variables where that suffices"""
    if not isinstance(x, Sym): return abs(x) <= tol
    if x.d is ONE:
        t = Fr(0)
        for m, c in x.n.items():
            b = abs(Fr(c))
            for v in m:
                lo, hi = E.bounds[v]
                if lo is None or hi is None: b = None; break
                b *= max(abs(Fr(lo)), abs(Fr(hi)))
            if b is None: break
            t += b
        else:
            if t <= tol: return True
    r = (x <= tol); q = (x >= -tol)
    return r & q if isinstance(r, SymBool) and isinstance(q, SymBool) else SymBool(E.z3.And(_z(r), _z(q)))
def _z(c): return c.e if isinstance(c, SymBool) else E.z3.BoolVal(bool(c))
def close(a, b, id, tol=1e-6):
    """equal up to rounding; natively relative to the size of the numbers"""
    fa, fb = flat(a), flat(b)
    if isinstance(b, (np.ndarray, list, tuple)) and isinstance(a, (np.ndarray, list, tuple)): check(shape(a) == shape(b), id) if len(fa) != len(fb) or shape(a) != shape(b) else None
    if len(fa) != len(fb): fb = fb * (len(fa) if len(fb) == 1 else 1)
    if len(fa) != len(fb): check(False, id); return
    for x, y in zip(fa, fb):
        if NATIVE: check(bool(abs(x - y) <= tol * max(1, min(abs(x), abs(y)))), id); continue
        d = x - y
        if special(d) or d != d if isinstance(d, float) else False: check(False, id); continue
        if isc(d):
            for p in (d.real, d.imag): check(small(p, tol), id)
        else: check(small(d, tol), id)
def same(a, b, id): close(a, b, id, 0 if not NATIVE else 1e-9)
def throws(f, *exc):
    try: f()
    except (exc or (Exception,)): return True
    return False
def raised(f):
    try: f()
    except Exception as x: return type(x)
    return None
def stop():
    if NATIVE: raise NativeFail('path ended')
    raise PathEnd()
def AND(*c):
    r = True
    for x in c: r = (r & x) if isinstance(x, SymBool) else (x & r if isinstance(r, SymBool) else (r and bool(x)))
    return r
def OR(*c):
    r = False
    for x in c: r = (r | x) if isinstance(x, SymBool) else (x | r if isinstance(r, SymBool) else (r or bool(x)))
    return r
def NOT(c): return ~c if isinstance(c, SymBool) else not c
def implies(a, b): return OR(NOT(a), b)
def arr(x, shape=None):
    """array of given numbers"""
    a = np.array(x, dtype=object if not NATIVE else None); a = a if shape is None else a.reshape(shape); return a if NATIVE else a.view(SArr)
def s_array(name, shape, lo=None, hi=None, cplx=False):
    n = int(np.prod(shape)); v = [s_cplx(name, lo, hi) if cplx else s_real(name, lo, hi) for _ in range(n)]
    if NATIVE: return np.array(v).reshape(shape)
    a = np.empty(n, dtype=object)
    for i, x in enumerate(v): a[i] = x
    return a.reshape(shape).view(SArr)

# ---------------------------------------------------------------------------------------------- numpy on symbolic numbers
class SArr(np.ndarray):
    """object array whose real and imaginary parts are those of its elements"""
    __array_priority__ = 10
    @property
    def real(s): return s._map(lambda x: x.real)
    @real.setter
    def real(s, v):
        for i, x in zip(np.ndindex(s.shape), np.broadcast_to(np.asarray(v, dtype=object), s.shape).flat): s[i] = mkc(x, getattr(s[i], 'imag', 0))
    @property
    def imag(s): return s._map(lambda x: x.imag)
    @imag.setter
    def imag(s, v):
        for i, x in zip(np.ndindex(s.shape), np.broadcast_to(np.asarray(v, dtype=object), s.shape).flat): s[i] = mkc(getattr(s[i], 'real', 0), x)
    def _map(s, f):
        if s.dtype != object: return f(np.asarray(s))
        r = np.empty(s.shape, dtype=object)
        for i in np.ndindex(s.shape): r[i] = f(s[i])
        return r.view(SArr)
    def conjugate(s): return s._map(lambda x: x.conjugate())
    conj = conjugate
    def astype(s, t, *a, **k):
        if t in (float, np.float64, 'float', 'd') or t is Float: return s._map(lambda x: Float(x))
        if t in (complex, np.complex128, 'complex', 'D') or t is Complex: return s._map(lambda x: SymC(x, 0.0) if isinstance(x, Sym) else x if isc(x) else complex(x))
        if t in (int, np.int64, 'int') or t is Int: return np.array([int(x) for x in s.flat]).reshape(s.shape)
        return np.ndarray.astype(s, t, *a, **k)
    def __eq__(s, o): return np.ndarray.__eq__(s, o) if s.dtype != object else elementwise(lambda x, y: x == y, s, o)
    def __ne__(s, o): return np.ndarray.__ne__(s, o) if s.dtype != object else elementwise(lambda x, y: x != y, s, o)
    def all(s, axis=None, **k): return all_(s) if axis is None else np.ndarray.all(s, axis, **k)
    def any(s, axis=None, **k): return any_(s) if axis is None else np.ndarray.any(s, axis, **k)
    def __array_wrap__(s, a, context=None, return_scalar=False):
        if return_scalar or (a.ndim == 0 and a.dtype == object): return a[()]
        return np.asarray(a).view(SArr) if a.dtype == object else np.asarray(a)
    def dot(s, o): return np.dot(s, o)
    def view(s, *a, **k):
        """numbers have no bytes here: pairs of reals as complex numbers and back (a copy)"""
        t = a[0] if a else k.get('dtype')
        if s.dtype == object and t in (Complex, builtins.complex) and t is not None and (t is Complex or t is builtins.complex):
            b = np.asarray(s)
            if any(isc(x) for x in b.flat): return s
            return np.array([mkc(x, y) for x, y in zip(b[..., 0::2].flat, b[..., 1::2].flat)], dtype=object).reshape(b.shape[:-1] + (b.shape[-1] // 2,)).view(SArr)
        if s.dtype == object and (t is Float or t is builtins.float):
            b = np.asarray(s)
            if not any(isc(x) for x in b.flat): return s
            return np.array([z for x in b.flat for z in (x.real, x.imag)], dtype=object).reshape(b.shape[:-1] + (2 * b.shape[-1],)).view(SArr)
        return np.ndarray.view(s, *a, **k)
def mkc(re, im): return SymC(re, im) if issym(re) or issym(im) else complex(re, im)
def elementwise(f, *a):
    b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a]); r = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(r.shape): r[i] = f(*[x[i] for x in b])
    return r.view(SArr) if r.shape else r[()]
def all_(a):
    r = True
    for x in np.asarray(a).flat:
        x = x if isinstance(x, (SymBool, bool, np.bool_)) else (x != 0); r = AND(r, x)
        if r is False: return False
    return r
def any_(a):
    r = False
    for x in np.asarray(a).flat: x = x if isinstance(x, (SymBool, bool, np.bool_)) else (x != 0); r = OR(r, x)
    return r
class TypeMeta(type):
    def __instancecheck__(c, x): return isinstance(x, c._real) or c._sym(x)
    def __subclasscheck__(c, k): return issubclass(k, c._real)
    def __eq__(c, o): return o is c or o is c._real
    def __hash__(c): return hash(c._real)
def dt(t):
    """a numpy dtype request: object for real and complex numbers"""
    if t is None: return object
    if t is Int: return int
    if t is Float or t is Complex: return object
    try: d = np.dtype(t)
    except TypeError: return object
    return object if d.kind in 'fcO' else d
class Float(metaclass=TypeMeta):
    _real = float; _sym = staticmethod(lambda x: isinstance(x, Sym) and not x.isint)
    def __new__(c, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1: x = x.flat[0]
        if isinstance(x, Sym): return Sym(x.n, x.d, False)
        if isinstance(x, SymC): raise TypeError("can't convert complex to float")
        if hasattr(type(x), '__float__') and not isnum(x) and not isinstance(x, np.ndarray):
            r = type(x).__float__(x)
            if issym(r): return r
        return float(x)
class Int(metaclass=TypeMeta):
    _real = int; _sym = staticmethod(lambda x: isinstance(x, Sym) and x.isint)
    def __new__(c, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1: x = x.flat[0]
        if isinstance(x, Sym): return trunc(x)
        if not a and hasattr(type(x), '__int__') and not isnum(x) and not isinstance(x, (np.ndarray, SymBool)):
            r = type(x).__int__(x)
            if issym(r): return r
        return int(x, *a)
class Complex(metaclass=TypeMeta):
    _real = complex; _sym = staticmethod(lambda x: isinstance(x, SymC))
    def __new__(c, re=0, im=0):
        if isinstance(re, np.ndarray) and re.size == 1: re = re.flat[0]
        if hasattr(type(re), '__complex__') and not isnum(re) and not isc(re) and not issym(re) and not isinstance(re, np.ndarray): re = type(re).__complex__(re)
        if issym(re) or issym(im): return SymC(re.real - (im.imag if not isinstance(im, int) else 0), re.imag + im.real)
        return complex(re, im)
def symround(x, nd=None): return x.__round__(nd) if isinstance(x, Sym) else round(x, nd) if nd is not None else round(x)
def symtype(*a):
    if len(a) == 1 and isinstance(a[0], SArr): return np.ndarray
    if len(a) != 1: return type(*a)
    x = a[0]
    if isinstance(x, Sym): return Int if x.isint else Float
    if isinstance(x, SymC): return Complex
    return type(x)
class _TypeProxy:
    """the builtin 'type' as repository code sees it"""
    def __call__(s, *a): return symtype(*a)
    def __mro_entries__(s, bases): return (type,)
    def __instancecheck__(s, x): return isinstance(x, type)
    def __subclasscheck__(s, x): return issubclass(x, type)
    def __eq__(s, o): return o is s or o is type
    def __hash__(s): return hash(type)
    def __getattr__(s, n): return getattr(type, n)
TYPE = _TypeProxy()
class symbool_t(metaclass=TypeMeta):
    _real = bool; _sym = staticmethod(lambda x: isinstance(x, SymBool))
    def __new__(c, x=False): return bool(x)
class symrange(metaclass=TypeMeta):
    _real = range; _sym = staticmethod(lambda x: False)
    def __new__(c, *a): return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])
def hassym(*a):
    for x in a:
        if issym(x): return True
        if isinstance(x, np.ndarray):
            if x.dtype == object: return True
        elif isinstance(x, (list, tuple)) and hassym(*x): return True
    return False
def view(a): return a.view(SArr) if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SArr) else a
def npshim():
    m = types.ModuleType('numpy'); m.__dict__.update({k: getattr(np, k) for k in dir(np) if k not in ('__builtins__',)})
    m.__all__ = [k for k in dir(np) if not k.startswith('_')]
    m.__path__ = []
    def alloc(fn):
        def f(shape, dtype=None, *a, **k):
            d = dt(dtype)
            if isinstance(shape, Sym): shape = shape.__index__()
            r = fn(shape, dtype=d, *a, **k)
            if d is object and fn is np.empty: r.fill(0)
            return view(r)
        return f
    for n in ('zeros', 'ones', 'empty'): setattr(m, n, alloc(getattr(np, n)))
    def full(shape, v, dtype=None, **k): return view(np.full(shape, v, dtype=object if dtype is None and hassym(v) else dt(dtype) if dtype is not None else None))
    def like(fn):
        def f(a, dtype=None, *b, **k):
            a = np.asarray(a, dtype=object) if hassym(a) else np.asarray(a); d = dt(dtype) if dtype is not None else (object if a.dtype.kind in 'fcO' else a.dtype); return view(fn(a.shape if 'shape' not in k else k['shape'], *b, dtype=d))
        return f
    m.full = full; m.zeros_like = like(np.zeros); m.ones_like = like(np.ones); m.empty_like = like(np.zeros); m.full_like = like(np.full)
    def eye(n, *a, dtype=float, **k): return view(np.eye(n, *a, dtype=dt(dtype), **k))
    m.eye = eye; m.identity = lambda n, dtype=float: eye(n, dtype=dtype)
    def array(x, dtype=None, copy=True, **k):
        if dtype is not None: d = dt(dtype); 
        elif hassym(x): d = object
        else:
            a = np.array(x, **k); d = object if a.dtype.kind in 'fc' else a.dtype
        if isinstance(x, Sym): r = np.empty((), dtype=object); r[()] = x; return view(r) if d is object else np.array(int(x), dtype=d)
        if isinstance(x, np.ndarray) and d is object: return view(np.array(x, dtype=object, **k))
        if d is not object and hassym(x): return np.array(elementwise(lambda y: int(y), x), dtype=d) 
        return view(np.array(x, dtype=d, **k))
    m.array = array
    def asarray(x, dtype=None, **k): return x if isinstance(x, np.ndarray) and (dtype is None or dt(dtype) == x.dtype) else array(x, dtype)
    m.asarray = m.asanyarray = asarray
    def ascontiguousarray(x, dtype=None): y = asarray(x, dtype); return y if y.flags.c_contiguous else y.copy()
    m.ascontiguousarray = ascontiguousarray
    m.array_equal = lambda a, b: False if np.shape(a) != np.shape(b) else all_(elementwise(lambda x, y: x == y, a, b)) if np.size(a) else True
    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        return all_(elementwise(lambda x, y: close_(x, y, rtol, atol), a, b)) if np.size(np.asarray(a, dtype=object)) else True
    def close_(x, y, rtol, atol):
        if not issym(x) and not issym(y): return bool(np.isclose(x, y, rtol, atol))
        return abs(x - y) <= atol + rtol * abs(y)
    m.allclose = allclose; m.isclose = lambda a, b, rtol=1e-5, atol=1e-8, **k: elementwise(lambda x, y: close_(x, y, rtol, atol), a, b)
    m.all = lambda a, axis=None, **k: all_(a) if axis is None else np.all(a, axis, **k)
    m.any = lambda a, axis=None, **k: any_(a) if axis is None else np.any(a, axis, **k)
    def un(name, f, real=None):
        r = getattr(np, name)
        def g(x, *a, **k):
            if not hassym(x): 
                y = r(x, *a, **k); return y
            out = None; F = f
            if name == 'round':
                d = a[0] if a else k.pop('decimals', 0); a = ()
                if d: F = lambda x: f(x * 10 ** int(d)) / 10 ** int(d)
            if a and len(a) == 1: out = a[0]; a = ()
            out = k.pop('out', out); out = out[0] if isinstance(out, tuple) else out
            if a or k: E.fatal(Unsupported('arguments of numpy.%s: %s %s' % (name, a, sorted(k))))
            y = elementwise(F, x) if isinstance(x, (np.ndarray, list, tuple)) else F(x)
            if out is None: return y
            out[...] = y; return out
        setattr(m, name, g)
    meth = lambda n: (lambda x: getattr(x, n)() if issym(x) else getattr(np, n)(x))
    un('sqrt', lambda x: x.sqrt() if issym(x) else (np.sqrt(x) if isc(x) or x >= 0 else np.nan))
    un('real', lambda x: x.real); un('imag', lambda x: x.imag); un('conj', lambda x: x.conjugate()); un('conjugate', lambda x: x.conjugate()); un('abs', abs); un('absolute', abs); un('fabs', abs)
    un('floor', lambda x: floor(x) * 1.0); un('ceil', lambda x: -floor(-x) * 1.0); un('round', lambda x: symround(x)); un('rint', lambda x: symround(x)); un('trunc', trunc)
    un('isnan', lambda x: False if issym(x) else bool(np.isnan(x))); un('isinf', lambda x: False if issym(x) else bool(np.isinf(x))); un('isfinite', lambda x: True if issym(x) else bool(np.isfinite(x)))
    un('sign', lambda x: 1 if x > 0 else -1 if x < 0 else 0); un('square', lambda x: x * x)
    un('isreal', lambda x: x.imag == 0); un('iscomplex', lambda x: x.imag != 0)
    for n in ('exp', 'log', 'sin', 'cos', 'tanh', 'cosh', 'sinh', 'tan', 'arctan', 'angle'): un(n, lambda x, n=n: uninterp(n, x) if issym(x) else getattr(np, n)(x))
    m.iscomplexobj = lambda x: any(isc(y) for y in np.asarray(x, dtype=object).flat) if hassym(x) else np.iscomplexobj(x)
    m.isrealobj = lambda x: not m.iscomplexobj(x)
    m.isscalar = lambda x: issym(x) or np.isscalar(x)
    def logical(n, f): setattr(m, n, lambda a, b: elementwise(f, a, b) if hassym(a, b) else getattr(np, n)(a, b))
    logical('logical_and', lambda a, b: AND(a, b)); logical('logical_or', lambda a, b: OR(a, b)); logical('maximum', lambda a, b: a if a >= b else b); logical('minimum', lambda a, b: a if a <= b else b)
    m.logical_not = lambda a: elementwise(NOT, a) if hassym(a) else np.logical_not(a)
    def einsum(sub, *ops, **k):
        k.pop('optimize', None); o = [np.asarray(x) for x in ops]
        if any(x.dtype == object for x in o): o = [x.astype(object) for x in o]
        return view(np.einsum(sub, *o, **k))
    m.einsum = einsum
    def wrap(n):
        f = getattr(np, n)
        def g(*a, **k):
            k.pop('order', None) if n == 'copy' else None
            if k.get('dtype') is Float: k['dtype'] = object
            if k.get('dtype') is Complex: k['dtype'] = object
            return view(f(*a, **k))
        setattr(m, n, g)
    for n in ('dot', 'tensordot', 'outer', 'kron', 'vdot', 'matmul', 'inner', 'concatenate', 'stack', 'vstack', 'hstack', 'append', 'diag', 'where', 'transpose', 'trace', 'cumsum', 'sum', 'prod', 'mean', 'average', 'diff', 'repeat', 'tile', 'roll', 'swapaxes', 'moveaxis', 'reshape', 'ravel', 'copy', 'delete', 'insert', 'cross', 'diagonal', 'block', 'squeeze', 'expand_dims', 'fromiter', 'vectorize', 'searchsorted', 'interp'):
        if hasattr(np, n) and n not in ('vectorize',): wrap(n)
    m.cumsum = lambda a, axis=None, **k: view(np.cumsum(np.asarray(a, dtype=object), axis)) if hassym(a) else np.cumsum(a, axis, **k)
    def vdot(a, b): return sum((x.conjugate() * y for x, y in zip(flat(a), flat(b))), 0)
    m.vdot = vdot
    def where(c, *a):
        if hassym(c): c = np.array([bool(x) for x in np.asarray(c).flat], dtype=bool).reshape(np.shape(c))
        return view(np.where(c, *a))
    m.where = where; m.nonzero = lambda c: where(c)
    def argm(op): return lambda a, axis=None: functools_argm(np.asarray(a).flat, op) 
    def functools_argm(it, op):
        bi, b = 0, None
        for i, x in enumerate(it):
            if b is None or bool(op(x, b)): bi, b = i, x
        return bi
    m.argmin = argm(lambda x, y: x < y); m.argmax = argm(lambda x, y: x > y)
    def mx(op):
        def f(a, axis=None, **k):
            if axis is not None or not hassym(a): return (np.min if op(0, 1) else np.max)(a, axis, **k)
            q = list(np.asarray(a).flat)
            if any(isc(x) or special(x) for x in q):
                b = None
                for x in q: b = x if b is None or bool(op(x, b)) else b
                return b
            return q[0] if len(q) == 1 else (LazyMin if op(0, 1) else LazyMax)(q)
        return f
    m.min = m.amin = mx(lambda x, y: x < y); m.max = m.amax = mx(lambda x, y: x > y)
    def arange(*a, **k):
        if hassym(*a):
            st, en, d = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a; r = []; x = st
            while (x < en) if d > 0 else (x > en): r.append(x); x = x + d
            return array(r)
        return np.arange(*a, **k)
    m.arange = arange
    def linspace(a, b, num=50, endpoint=True, **k):
        a, b = [x if isnum(x) or isc(x) or issym(x) or not hasattr(x, '__mul__') else x * 1.0 for x in (a, b)]
        n = int(num); d = (n - 1 if endpoint else n); r = array([a + (b - a) * i / d if d else a for i in range(n)], dtype=float) if hassym(a, b) else array(np.linspace(a, b, n, endpoint)); return r
    m.linspace = linspace
    la = types.ModuleType('numpy.linalg'); la.__dict__.update({k: getattr(np.linalg, k) for k in dir(np.linalg)}); m.linalg = la
    def det_inv(a):
        a = [list(r) for r in a]; n = len(a); b = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]; d = 1
        if n == 2: 
            d = a[0][0] * a[1][1] - a[0][1] * a[1][0]; return d, (None if bool(d == 0) else [[a[1][1] / d, -a[0][1] / d], [-a[1][0] / d, a[0][0] / d]])
        for c in range(n):
            p = next((r for r in range(c, n) if not issym(a[r][c]) and a[r][c] != 0), None)
            if p is None: p = next((r for r in range(c, n) if bool(a[r][c] != 0)), None)
            if p is None: return 0, None
            if p != c: a[c], a[p] = a[p], a[c]; b[c], b[p] = b[p], b[c]; d = -d
            q = a[c][c]; d = d * q; a[c] = [x / q for x in a[c]]; b[c] = [x / q for x in b[c]]
            for r in range(n):
                if r != c and not (not issym(a[r][c]) and a[r][c] == 0): k = a[r][c]; a[r] = [x - k * y for x, y in zip(a[r], a[c])]; b[r] = [x - k * y for x, y in zip(b[r], b[c])]
        return d, b
    def inv(a):
        if not hassym(a): return array(np.linalg.inv(a))
        a = np.asarray(a)
        if a.ndim > 2: return view(np.array([inv(x) for x in a.reshape((-1,) + a.shape[-2:])], dtype=object).reshape(a.shape))
        d, b = det_inv(a)
        if b is None: raise np.linalg.LinAlgError('Singular matrix')
        return view(np.array(b, dtype=object).reshape(a.shape))
    la.inv = inv; la.det = lambda a: det_inv(np.asarray(a))[0] if hassym(a) else np.linalg.det(a)
    def solve(a, b): return np.dot(inv(a), b)
    la.solve = lambda a, b: view(solve(a, b)) if hassym(a, b) else np.linalg.solve(a, b)
    def norm(a, *k, **kw):
        if not hassym(a): return np.linalg.norm(np.asarray(a, dtype=complex if any(isc(x) for x in flat(a)) else float), *k, **kw)
        ax = k[1] if len(k) > 1 else kw.get('axis')
        if ax is not None: b = np.moveaxis(np.asarray(a, dtype=object), ax, -1); return array([norm(b[i]) for i in np.ndindex(b.shape[:-1])]).reshape(b.shape[:-1])
        r = sum(((x * x) if not isc(x) else x.real * x.real + x.imag * x.imag) for x in flat(a)); return r.sqrt() if isinstance(r, Sym) else math.sqrt(r)
    la.norm = norm
    def cholesky(a):
        if not hassym(a): return array(np.linalg.cholesky(np.array([complex(x) for x in flat(a)]).reshape(np.shape(a))))
        n = len(a); L = np.zeros((n, n), dtype=object)
        for j in range(n):
            d = a[j][j].real - sum(((x.real * x.real + x.imag * x.imag) for x in L[j, :j]), 0.0)
            if bool(d <= 0): raise np.linalg.LinAlgError('Matrix is not positive definite')
            L[j, j] = d.sqrt() if issym(d) else math.sqrt(d)
            for i in range(j + 1, n): L[i, j] = (a[i][j] - sum((L[i, k] * L[j, k].conjugate() for k in range(j)), 0.0)) / L[j, j]
        return view(L)
    la.cholesky = cholesky
    def real_only(n):
        f = getattr(np.linalg, n)
        def g(a, *k, **kw):
            for x in np.asarray(a, dtype=object).flat:
                if issym(x) and not (isinstance(x, Sym) and x.isconst()): E.fatal(Unsupported('numpy.linalg.%s of symbolic numbers' % n))
            b = np.asarray(a, dtype=object); b = np.array([complex(x) for x in b.flat]).reshape(b.shape); b = b if np.any(b.imag) else b.real.copy(); r = f(b, *k, **kw)
            return tuple(array(x) if isinstance(x, np.ndarray) else x for x in r) if isinstance(r, tuple) else array(r) if isinstance(r, np.ndarray) else r
        setattr(la, n, g)
    for n in ('eig', 'eigh', 'eigvals', 'eigvalsh', 'svd', 'qr', 'lstsq', 'pinv', 'cond', 'matrix_rank'): real_only(n)
    m.float64 = m.double = m.float_ = m.float = Float; m.complex128 = m.complex_ = m.cdouble = m.complex = Complex
    m.ndarray = np.ndarray; m.bool_ = np.bool_
    return m
UNINT = {}
def uninterp(name, x):
    """the value of a transcendental function: the same unknown for the same argument"""
    z3 = E.z3
    if isinstance(x, SymC):
        if name == 'log': return clog(x)
        if name == 'exp':
            # exp(x+iy) = exp(x) (cos y + i sin y)
            r = uninterp('exp', x.real) if issym(x.real) else math.exp(x.real); c = uninterp('cos', x.imag) if issym(x.imag) else math.cos(x.imag); s = uninterp('sin', x.imag) if issym(x.imag) else math.sin(x.imag); return SymC(r * c, r * s)
        E.fatal(Unsupported(name + ' of a complex number'))
    if x.isconst(): return getattr(math, {'arctan': 'atan', 'log': 'log'}.get(name, name))(x.const())
    tab = E.__dict__.setdefault('unint', {})
    if tab.get('path') is not E.vars: tab.clear(); tab['path'] = E.vars
    key = (name, frozenset(x.n.items()), frozenset(x.d.items()))
    if key in tab: return tab[key]
    def new(n, lo=None, hi=None): return Sym({(E.var(n, False, lo, hi),): 1}, ONE, False)
    if name in ('cos', 'sin'):
        c, s = new('cos', -1, 1), new('sin', -1, 1); E.add((c * c + s * s == 1).e); tab[('cos',) + key[1:]] = c; tab[('sin',) + key[1:]] = s
        n = -x; nk = (frozenset(n.n.items()), frozenset(n.d.items())); tab[('cos',) + nk] = c; tab[('sin',) + nk] = -s
        return tab[key]
    if name == 'exp':
        # exp(c m + ...) = product of the powers of exp(m) over the terms
        if len(x.n) > 1:
            r = 1.0
            for m, c in x.n.items():
                t = mk({m: c}, x.d, False); r = r * (uninterp('exp', t) if isinstance(t, Sym) else math.exp(t))
            tab[key] = r; return r
        (m, c), = x.n.items(); c = Fr(c); lead = next(iter(x.d.values())) if len(x.d) == 1 else 1
        if c < 0: r = 1 / uninterp('exp', -x); tab[key] = r; return r
        q = E.opts.get('expden', 1); base = mk({m: Fr(1, q)}, x.d, False); bk = ('exp0', frozenset(base.n.items()), frozenset(base.d.items()))
        if (c * q).denominator == 1 and (c * q) <= 64:
            if bk not in tab: tab[bk] = new(name); E.add((tab[bk] > 0).e); E.add((tab[bk] - 1 >= base).e)
            r = tab[bk] ** int(c * q)
        else: r = new(name); E.add((r > 0).e)
        tab[key] = r; return r
    r = new(name)
    if name == 'log' and bool(x <= 0): return float('nan')
    old = tab.setdefault(('args', name), [])
    for y, v in old:
        c = x == y
        E.add(z3.Implies(c.e, (r == v).e) if isinstance(c, SymBool) else z3.BoolVal(True) if not c else (r == v).e)
    old.append((x, r)); tab[key] = r; return r
def clog(x):
    """the principal logarithm: exp(log z) = z is not expressed, the branch and the modulus are"""
    tab = E.__dict__.setdefault('unint', {})
    if tab.get('path') is not E.vars: tab.clear(); tab['path'] = E.vars
    def k(y): return (frozenset(y.n.items()), frozenset(y.d.items())) if isinstance(y, Sym) else float(y)
    key = ('clog', k(x.real), k(x.imag))
    if key in tab: return tab[key]
    a = x.real * x.real + x.imag * x.imag; re = 0.5 * (uninterp('log', a) if isinstance(a, Sym) else math.log(a))
    if not issym(x.imag) and x.imag == 0: r = SymC(re, 0.0 if bool(x.real > 0) else math.pi); tab[key] = r; return r
    im = Sym({(E.var('arg', False, -math.pi, math.pi),): 1}, ONE, False)
    E.add(OR(AND(x.imag > 0, im > 0, im < math.pi), AND(x.imag < 0, im < 0, im > -math.pi), AND(x.imag == 0, x.real > 0, im == 0), AND(x.imag == 0, x.real < 0, im == math.pi)).e)
    E.add(OR(AND(x.real > 0, im < math.pi / 2, im > -math.pi / 2), AND(x.real == 0, OR(im == math.pi / 2, im == -math.pi / 2)), AND(x.real < 0, OR(im > math.pi / 2, im < -math.pi / 2))).e)
    r = SymC(re, im); tab[key] = r; return r
def csqrt(x):
    """the square root with non-negative real part"""
    if not issym(x): import cmath; return cmath.sqrt(x)
    if isinstance(x, Sym): r = x.sqrt(); return r if isc(r) else SymC(r, 0)
    if bool(x.imag == 0): return SymC(*(lambda r: (r.real, r.imag))(csqrt(x.real)))
    # b = Im / (2 a), a^4 = Re a^2 + Im^2 / 4
    i = E.var('sqrt', False, 0); a = Sym({(i,): 1}, ONE, False); E.add((a > 0).e); b = x.imag / (2 * a); E.add((a * a - b * b == x.real).e)
    (R, rd), (I, idn) = parts(x.real), parts(x.imag)
    if rd is ONE and idn is ONE: rule((i,) * 4, padd(pmul({(i, i): 1}, R), pscale(pmul(I, I), Fr(1, 4))))
    return SymC(a, b)
def cmathshim():
    import cmath; m = types.ModuleType('cmath'); m.__dict__.update({k: getattr(cmath, k) for k in dir(cmath) if not k.startswith('__')})
    m.sqrt = csqrt
    for n in ('exp', 'log'): setattr(m, n, lambda x, n=n: uninterp(n, x if isinstance(x, SymC) else SymC(x, 0)) if issym(x) else getattr(cmath, n)(x))
    return m
def mathshim():
    m = types.ModuleType('math'); m.__dict__.update({k: getattr(math, k) for k in dir(math) if not k.startswith('__')})
    m.sqrt = lambda x: x.sqrt() if issym(x) else math.sqrt(x); m.floor = floor; m.ceil = lambda x: -floor(-x); m.fabs = abs; m.trunc = trunc
    for n in ('exp', 'log', 'sin', 'cos', 'tanh', 'cosh', 'sinh', 'tan'): setattr(m, n, lambda x, n=n: uninterp(n, x) if issym(x) else getattr(math, n)(x))
    m.copysign = lambda a, b: (abs(a) if bool(b >= 0) else -abs(a)) if issym(b) else math.copysign(a, b)
    m.isnan = lambda x: False if issym(x) else math.isnan(x); m.isinf = lambda x: False if issym(x) else math.isinf(x); m.isfinite = lambda x: True if issym(x) else math.isfinite(x)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= rel_tol * abs(a) or abs(a - b) <= rel_tol * abs(b) or abs(a - b) <= abs_tol
    m.hypot = lambda a, b: (a * a + b * b).sqrt() if issym(a) or issym(b) else math.hypot(a, b)
    return m
SHIM = {}
BUILTINS = {'float': Float, 'int': Int, 'complex': Complex, 'round': symround, 'range': symrange, 'type': TYPE}
np_ = np   # numpy as the harness sees it (the model in symbolic mode)

# ---------------------------------------------------------------------------------------------- importing the repository
STUBS = {}            # module name -> module or callable making it
REALINIT = set()      # packages whose __init__ is executed
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(s, name, path=None, target=None):
        if name in STUBS: return importlib.machinery.ModuleSpec(name, s)
        if name == 'triqs' or name.startswith('triqs.'):
            p = REPO + '/python/' + name.replace('.', '/')
            if os.path.isdir(p):
                sp = importlib.machinery.ModuleSpec(name, s, is_package=True); sp.submodule_search_locations = [p]; sp.loader_state = p + '/__init__.py' if name in REALINIT else None; return sp
            if os.path.exists(p + '.py'): sp = importlib.machinery.ModuleSpec(name, s, origin=p + '.py'); sp.has_location = True; sp.loader_state = p + '.py'; return sp
        return None
    def create_module(s, spec):
        if spec.name in STUBS: m = STUBS[spec.name]; m = m() if not isinstance(m, types.ModuleType) else m; return m
        return None
    def exec_module(s, m):
        f = m.__spec__.loader_state if m.__spec__ else None
        if not f: return
        src = open(f).read(); execsrc(m, src, f)
def execsrc(m, src, f):
    if not NATIVE:
        b = types.ModuleType('builtins'); b.__dict__.update(builtins.__dict__); b.__dict__.update(BUILTINS); b.__import__ = symimport; m.__dict__['__builtins__'] = b.__dict__
    import warnings
    with warnings.catch_warnings(): warnings.simplefilter('ignore'); exec(compile(src, f, 'exec'), m.__dict__)
def symimport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIM and (fromlist or '.' not in name):
            m = SHIM[name]
            return m
        if name.split('.')[0] in SHIM and not fromlist: return SHIM[name.split('.')[0]]
    return builtins.__import__(name, globals, locals, fromlist, level)
def shims():
    if NATIVE: return
    n = npshim(); SHIM.update({'numpy': n, 'numpy.linalg': n.linalg, 'math': mathshim(), 'cmath': cmathshim()}); globals()['np_'] = n
def stub(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); m.__path__ = []
    STUBS[name] = m; return m
def load(name): return importlib.import_module(name)
def source(name, path):
    """execute a file of the repository that is not importable by name"""
    m = types.ModuleType(name); m.__file__ = path; execsrc(m, open(path).read(), path); return m

# ---------------------------------------------------------------------------------------------- running
FUNCS = set()
def watch():
    mon = sys.monitoring; mon.use_tool_id(3, 'pysym'); pre = REPO + '/python/'
    def start(code, off):
        if code.co_filename.startswith(pre): FUNCS.add((code.co_qualname, code.co_filename[len(REPO) + 1:]))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start); mon.set_events(3, mon.events.PY_START)
def loadharness(path):
    shims(); sys.meta_path.insert(0, Finder())
    m = types.ModuleType('harness'); m.__file__ = path; sys.path.insert(0, os.path.dirname(path)); m.__dict__['pysym'] = sys.modules['pysym']
    exec(compile(open(path).read(), path, 'exec'), m.__dict__); return m
def ids_of(path, name):
    t = ast.parse(open(path).read()); top = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}; out = set(); seen = set()
    def lits(f):
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                k = {'check': 1, 'close': 2, 'same': 2}.get(n.func.id)
                if k and len(n.args) > k and isinstance(n.args[k], ast.Constant): out.add(n.args[k].value)
            if isinstance(n, ast.Name) and n.id in top and n.id not in seen: seen.add(n.id); lits(top[n.id])
    lits(top[name]); return sorted(out)
def run(path, name, out, budget):
    global E
    import resource; resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)); sys.setrecursionlimit(20000)
    f0, o = None, None
    E = Engine(budget, {}); E.begin()
    loadharness(path); f, o = ENTRIES[name]; E = Engine(budget, o); watch(); t0 = time.time(); fatal = None; depth = 0
    import signal
    def alarm(*_): raise OutOfTime('no progress')
    signal.signal(signal.SIGALRM, alarm)
    def giveup(why, kind='incomplete'):
        # a path the executor cannot finish: its inputs go to the native replay, which alone decides whether they break the property
        signal.alarm(0)
        try:
            E.budget = 1e9; s = E.z3.Solver(); s.set('timeout', 10000); s.add(*E.cons)
            if s.check() == E.z3.sat: E.violate('termination' if kind == 'hang' else 'path not completed', kind, str(why)[:300], s.model())
        except BaseException: pass
        E.budget = budget
    while True:
        E.begin(); signal.alarm(max(5, int(budget - (time.time() - t0)) + 15))
        try:
            f()
            if E.pending: raise E.pending
        except PathEnd: pass
        except Infeasible: E.paths -= 1
        except Unsupported as x: giveup(x); E.error('unsupported: %s' % x + ' at ' + ' < '.join('%s:%d' % (os.path.basename(k.filename), k.lineno) for k in reversed(traceback.extract_tb(x.__traceback__)[-6:])))
        except OutOfTime: E.error('time budget exhausted'); giveup('time budget exhausted', 'hang'); break
        except Exception as x:
            if E.pending is not None and not isinstance(E.pending, PathEnd): E.error('unsupported: %s' % E.pending); giveup(E.pending)
            else:
                id = 'no exception'; r = E.ask(); tb = traceback.extract_tb(x.__traceback__)
                if r == E.z3.sat: E.violate(id, 'exception', 'unexpected %s: %s at %s' % (type(x).__name__, str(x)[:200], ' < '.join('%s:%d' % (os.path.basename(k.filename), k.lineno) for k in reversed(tb[-4:]))), E.last.model())
                elif r != E.z3.unsat: E.error('exception on an undecided path: %s' % x)
        signal.alarm(0); E.paths += 1
        if E.paths > int(o.get('maxpaths', 200000)): E.error('too many paths'); break
        if time.time() - t0 > budget: E.error('time budget exhausted'); break
        if not E.next(): break
    src = path
    j = {'entry': name, 'paths': E.paths, 'obligations': E.obl, 'discharged': E.dis, 'concrete': E.concrete, 'queries': E.queries, 'sat': E.sat, 'unsat': E.unsat, 'unknown': E.unknown, 'solver_s': E.solver_s, 'wall_s': time.time() - t0,
         'errors': E.errors, 'violations': E.violations, 'asserts': E.asserts, 'assert_ids': ids_of(path, name), 'functions': sorted(FUNCS)}
    json.dump(j, open(out, 'w'))
def native(path, name, inputs):
    global NATIVE, NAT
    NATIVE = True; NAT = [[l.rstrip('\n').rsplit(' ', 1)[0], None, l.rstrip('\n').rsplit(' ', 1)[1].strip()] for l in open(inputs) if l.strip()]
    loadharness(path); f, o = ENTRIES[name]
    try: f()
    except NativeFail as x: print('NATIVE-END', x); sys.exit(3)
    except BaseException as x: traceback.print_exc(); print('NATIVE-EXC %s: %s' % (type(x).__name__, x)); sys.exit(78)
    print('NATIVE-OK'); sys.exit(0)
def main():
    global TIER, THOROUGH
    TIER = sys.argv[-1] if sys.argv[1] != 'run' else sys.argv[5]; THOROUGH = TIER == 'thorough'
    me = sys.modules['pysym']
    if sys.argv[1] == 'list':
        t = ast.parse(open(sys.argv[2]).read()); r = []
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'entry': r.append(n.name)
                    if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'entry' and not (any(k.arg == 'thorough' for k in d.keywords) and not THOROUGH): r.append(n.name)
        print('\n'.join(r))
    elif sys.argv[1] == 'run': run(sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[6]))
    elif sys.argv[1] == 'native': native(sys.argv[2], sys.argv[3], sys.argv[4])
if __name__ == '__main__': main()
