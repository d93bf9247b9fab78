"""A model of triqs.operators.operators: fermionic operators as sums of normal-ordered words (the compiled class is the subject of C01)."""
from pysym import *
def _zero(x): return not issym(x) and x == 0
class Operator:
    def __init__(s, x=0): s.t = {} if _zero(x) else {(): x}
    @staticmethod
    def _of(t): r = Operator(); r.t = t; return r
    @staticmethod
    def _word(w, k, out):
        """add k times a word to out in normal order: creators first and ascending, then annihilators descending"""
        key = lambda o: (0, o[1]) if o[0] else (1, tuple(-ord(c) for c in repr(o[1])))
        w = list(w)
        for i in range(len(w) - 1):
            a, b = w[i], w[i + 1]
            if a == b: return
            if not a[0] and b[0]:
                if a[1] == b[1]: Operator._word(w[:i] + w[i + 2:], k, out)
                Operator._word(w[:i] + [b, a] + w[i + 2:], -k, out); return
            if a[0] == b[0] and Operator._after(a, b): Operator._word(w[:i] + [b, a] + w[i + 2:], -k, out); return
        w = tuple(w); x = out.get(w, 0) + k
        if _zero(x): out.pop(w, None)
        else: out[w] = x
    @staticmethod
    def _after(a, b): return a[1] > b[1] if a[0] else a[1] < b[1]
    def __iter__(s): return iter([([[d, list(i)] for d, i in w], k) for w, k in list(s.t.items())])
    def __add__(s, o):
        o = o if isinstance(o, Operator) else Operator(o); r = dict(s.t)
        for w, k in o.t.items():
            x = r.get(w, 0) + k
            if _zero(x): r.pop(w, None)
            else: r[w] = x
        return Operator._of(r)
    __radd__ = __add__
    def __neg__(s): return s * -1
    def __sub__(s, o): return s + o * -1 if isinstance(o, Operator) else s + -o
    def __rsub__(s, o): return -s + o
    def __mul__(s, o):
        r = {}
        if not isinstance(o, Operator):
            if not (issym(o) or isnum(o) or isc(o)): return NotImplemented
            return Operator._of({w: k * o for w, k in s.t.items() if not _zero(o)})
        for v, k in s.t.items():
            for w, l in o.t.items(): Operator._word(v + w, k * l, r)
        return Operator._of(r)
    def __rmul__(s, o): return s * o
    def __truediv__(s, o): return s * (1.0 / o)
    def is_zero(s): return not s.t or all(bool(k == 0) for k in s.t.values())
    @property
    def real(s): return Operator._of({w: k.real for w, k in s.t.items()})
    @property
    def imag(s): return Operator._of({w: k.imag for w, k in s.t.items()})
    def coeffs(s): return dict(s.t)
    __array_priority__ = 10000
    __array_ufunc__ = None
def c(*i): return Operator._of({((False, tuple(i)),): 1.0})
def c_dag(*i): return Operator._of({((True, tuple(i)),): 1.0})
def n(*i): return c_dag(*i) * c(*i)
def dagger(o):
    r = Operator()
    for w, k in o.t.items():
        t = {}; Operator._word(tuple((not d, i) for d, i in reversed(w)), k.conjugate(), t); r = r + Operator._of(t)
    return r
ops = stub('triqs.operators.operators', Operator=Operator, c=c, c_dag=c_dag, n=n, dagger=dagger); ops.__all__ = ['Operator', 'c', 'c_dag', 'n', 'dagger']
import pysym; pysym.REALINIT.add('triqs.operators')
def equal(a, b, id, tol=0):
    """two operators are the same"""
    d = a - b
    for k in d.t.values(): close(k, 0, id, tol or 1e-9)
    if not d.t: check(True, id)
def comm(a, b): return a * b - b * a
