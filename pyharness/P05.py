"""P05: lazy expressions evaluate to what direct evaluation gives."""
from pysym import *
L = load('triqs.gf.lazy_expressions')
class Term(L.LazyExprTerminal):
    def __init__(s, v): s.v = v
OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', lambda a, b: a / b)]
NZ = lambda: s_real('x', 0.5, 8)
def leaf(kind=None, kinds=(0, 2)):
    """(expression, its value); a terminal, an expression of one, or a number"""
    v = NZ(); k = s_choice('leaf', kinds) if kind is None else kind; t = Term(v)
    return (t, v) if k == 0 else (L.LazyExpr(t), v) if k == 1 else (v, v)
FS = {'f': lambda x: x * x + 1, 'g': lambda x, y: x + 2 * y}
def build(d, first=False):
    """an expression of depth d or less; the leftmost leaf is a terminal"""
    k = s_pick('node', 0, 5) if d else 6
    if d == 0: return leaf(0 if first else None)
    if k <= 3:
        a, x = build(d - 1, True); b, y = build(s_pick('d', 0, min(d - 1, 1)) if d > 1 else 0)
        if d == 1 and not isinstance(b, Term) and s_flag('swap'): a, x, b, y = b, y, a, x
        if k == 3: assume(OR(y > 0.01, y < -0.01))
        return OPS[k][1](a, b), OPS[k][1](x, y)
    if k == 4: a, x = build(d - 1, True); return L.lazy_function('f', FS['f'])(a), FS['f'](x)
    a, x = build(d - 1, True); b, y = build(0); return L.lazy_function('g', FS['g'])(a, b), FS['g'](x, y)
def ev(t): return t.v if isinstance(t, Term) else t
def value(e): return L.eval_expr_with_context(ev, L.LazyExpr(e))
@entry
def h_eval():
    e, v = build(2 if not THOROUGH else 3, True); same(value(e), v, 'the value of an expression'); same(value(e), v, 'evaluation can be repeated')
@entry
def h_binary():
    """every operator with a terminal, an expression or a number on either side"""
    a, x = leaf(kinds=(0, 1, 2)); b, y = leaf(kinds=(0, 1, 2)); k = s_pick('op', 0, 3)
    if not isinstance(a, (Term, L.LazyExpr)) and not isinstance(b, (Term, L.LazyExpr)): return
    e = OPS[k][1](a, b); check(isinstance(e, L.LazyExpr), 'operations are lazy'); same(value(e), OPS[k][1](x, y), 'the value of an expression')
    n = list(L.all_terminals(e)); check(len(n) == 2 and ev(n[0]) is x and ev(n[1]) is y, 'the terminals in order')
@entry
def h_inplace():
    a, x = leaf(1); b, y = leaf(kinds=(0, 1, 2)); k = s_pick('op', 0, 3); keep = a; c = a.copy(); d = L.LazyExpr(a)
    if k == 0: a += b
    elif k == 1: a -= b
    elif k == 2: a *= b
    else: a /= b
    check(a is keep, 'in-place operations keep the object'); same(value(a), OPS[k][1](x, y), 'in-place operations'); same(value(c), x, 'a copy is independent'); same(value(d), x, 'an expression made from another is independent'); a *= 2; same(value(a), 2 * OPS[k][1](x, y), 'in-place operations')
@entry
def h_copy():
    e, v = build(1, True); e = L.LazyExpr(e); c = e.copy(); same(value(c), v, 'a copy has the same value'); check(c is not e, 'a copy is another object'); check(c.is_terminal() == e.is_terminal(), 'a copy has the same structure')
    if not e.is_terminal() and isinstance(e.childs[-1], L.LazyExpr) and e.tag != 'F': e.childs[-1].__iadd__(1); same(value(c), v, 'a copy is independent')
@entry
def h_transform():
    """every operation and every terminal is rewritten"""
    e, v = build(2, True); e = L.LazyExpr(e); same(value(L.transform(e, lambda t, c: (t, c))), v, 'a transformation without change')
    def dbl(x): return x if isinstance(x, tuple) else 2 * ev(x)
    def flip(t, c): return ({'+': '-', '-': '+', '*': '/', '/': '*'}.get(t, t), c)
    def ref(x):
        if x.tag == 'T': return dbl(x.childs[0])
        if x.tag == 'F': return x.childs[0].get_terminal()[1](*[ref(c) for c in x.childs[1:]])
        a, b = [ref(c) for c in x.childs]; t = flip(x.tag, None)[0]
        if t == '/': assume(OR(b > 0.01, b < -0.01))
        return dict(OPS)[t](a, b)
    want = ref(e); got = L.transform(e, flip, dbl); same(value(got), want, 'a transformation rewrites every node'); same(value(e), v, 'a transformation leaves the original')
@entry
def h_eval_expr():
    """the evaluation context is found among the terminals"""
    class Ctx:
        def __init__(s, k): s.k = k
        def __eq__(s, o): return s.k == o.k
        def __call__(s, t): return t.v if hasattr(t, 'v') else t
    class G(Term):
        def __init__(s, v, k): s.v = v; s.k = k
        def __lazy_expr_eval_context__(s): return Ctx(s.k)
    x, y, z = NZ(), NZ(), NZ(); p, q, t = s_pick('ctx', 0, 1), s_pick('ctx', 0, 1), s_pick('ctx', 0, 1); e = G(x, p) * Term(y) - 3 * G(z, q) + G(y, t)
    if p == q == t: same(L.eval_expr(e), x * y - 3 * z + y, 'the value of an expression')
    else: check(throws(lambda: L.eval_expr(e), ValueError), 'incompatible contexts are rejected')
    check(throws(lambda: L.eval_expr(Term(y) + 1), ValueError), 'an abstract expression has no value'); check(L.eval_expr(x) is x, 'other objects are left alone'); same(L.eval_expr(1 / G(x, 0)), 1 / x, 'the value of an expression'); f = L.lazy_function('f', FS['f']); same(L.eval_expr(f(G(x, 0)) + f(y)), x * x + 1 + y * y + 1, 'the value of an expression')
    u, w, r = G(x, 0), Term(y), G(z, 1); check(throws(lambda: L.eval_expr(w + (u - r)), ValueError), 'incompatible contexts are rejected')
@entry
def h_terminal():
    x = NZ(); t = Term(x); e = L.LazyExpr(t); check(e.is_terminal() and e.get_terminal() is t, 'a terminal'); s = e + 1; check(not s.is_terminal() and s.get_terminal() is None, 'an operation is no terminal'); check(throws(lambda: L.LazyExpr()), 'an empty expression is rejected'); d = L.LazyExpr(s); check(d.tag == s.tag and not d.is_terminal(), 'an expression of an expression')
