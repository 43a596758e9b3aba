"""Hash-consed value-number terms with an algebraic normal form.

A term is what the value-flow analysis (engine.py) assigns to an expression.
Arithmetic is kept as a canonical polynomial over atoms (rational exponents),
comparisons as sign tests of such a polynomial, booleans as canonical and/or
sets and conditional values as if-then-else trees.  Two expressions that are
equal as rational functions get terms `equal()` accepts; nothing is evaluated
on concrete data and no solver is involved.
"""
from fractions import Fraction
import hashlib
import itertools

_table = {}


class T:
    __slots__ = ('op', 'args', 'key', 'h', '_deps')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.h = hash(k)
        t._deps = None
        t.key = None
        _table[k] = t
    return t


def key(t):
    """fixed size structural digest; gives a deterministic total order."""
    if isinstance(t, T):
        if t.key is None:
            if t.op == 'sym':
                t.key = 'a' + str(t.args[0])
            else:
                s = t.op + '(' + ','.join(key(a) for a in t.args) + ')'
                t.key = ('b' + s) if len(s) < 60 else 'c' + hashlib.sha1(s.encode()).hexdigest()[:24]
        return t.key
    if isinstance(t, tuple):
        return '<' + ','.join(key(a) for a in t) + '>'
    return repr(t)


# ---------------------------------------------------------------- atoms
def sym(name, isint=False):
    return mk('sym', name, bool(isint))


def const(v):
    """Non numeric constant (string, None, bool, Ellipsis ...)."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', type(v).__name__, v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    return mk('const', type(v).__name__, repr(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def num(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', 'float', repr(v))
        # decimal literals are taken at their written value, so that
        # 1e-9 * 1e9 cancels
        v = Fraction(repr(v))
    v = Fraction(v)
    if v == 0:
        return mk('poly')
    return mk('poly', (v, ()))


ZERO = num(0)
ONE = num(1)


def app(f, *args):
    return mk('app', f, *args)


def is_num(t):
    return t.op == 'poly' and (len(t.args) == 0 or (len(t.args) == 1 and t.args[0][1] == ()))


def numval(t):
    if not is_num(t):
        return None
    return t.args[0][0] if t.args else Fraction(0)


def is_const(t):
    return t.op == 'const' or is_num(t)


# ---------------------------------------------------------------- polynomials
def _monos(t):
    """term -> list of (coeff, mono)."""
    if t.op == 'poly':
        return list(t.args)
    if t is TRUE:
        return [(Fraction(1), ())]
    if t is FALSE:
        return []
    return [(Fraction(1), ((t, Fraction(1)),))]


def _build(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1 and items[0][0] == 1 and len(items[0][1]) == 1 and items[0][1][0][1] == 1:
        return items[0][1][0][0]
    items.sort(key=lambda cm: _mkey(cm[1]))
    return mk('poly', *items)


def _mkey(m):
    return tuple((key(a), e) for a, e in m)


def _norm_mono(pairs):
    d = {}
    for a, e in pairs:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: key(ae[0])))


def add(*ts):
    d = {}
    for t in ts:
        for c, m in _monos(t):
            d[m] = d.get(m, 0) + c
    return _build(d)


def scale(t, c):
    c = Fraction(c)
    return _build({m: k * c for k, m in _monos(t)})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    acc = [(Fraction(1), ())]
    for t in ts:
        ms = _monos(t)
        if len(acc) * len(ms) > 4000:
            return app('bigmul', *ts)
        new = {}
        for c1, m1 in acc:
            for c2, m2 in ms:
                m = _norm_mono(m1 + m2)
                new[m] = new.get(m, 0) + c1 * c2
        acc = [(c, m) for m, c in new.items() if c != 0]
    # expand atoms that became integral powers of polynomials: (p)^1 etc.
    out = _build({m: c for c, m in acc})
    return _reexpand(out)


def _reexpand(t):
    """poly atoms raised to positive integral powers are multiplied out."""
    if t.op != 'poly':
        return t
    for c, m in t.args:
        for a, e in m:
            if a.op == 'poly' and e > 0 and e.denominator == 1:
                res = []
                for c2, m2 in t.args:
                    parts = [num(c2)]
                    for a2, e2 in m2:
                        if a2.op == 'poly' and e2 > 0 and e2.denominator == 1:
                            parts.extend([a2] * int(e2))
                        else:
                            parts.append(mk('poly', (Fraction(1), ((a2, e2),)))
                                         if not (e2 == 1) else a2)
                    res.append(mul(*parts))
                return add(*res)
    return t


def _content(t):
    """(leading sign*content, primitive part) for a polynomial."""
    ms = _monos(t)
    if not ms:
        return Fraction(0), t
    ms = sorted(ms, key=lambda cm: _mkey(cm[1]))
    from math import gcd
    g = 0
    l = 1
    for c, _ in ms:
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    cont = Fraction(g, l) if g else Fraction(1)
    if ms[-1][0] < 0:
        cont = -cont
    return cont, scale(t, 1 / cont)


def _fpow(c, e):
    """exact rational power, or None."""
    if e.denominator == 1:
        if c == 0 and e < 0:
            return None
        return c ** int(e)
    if c < 0:
        return None
    from math import isqrt
    if e.denominator == 2:
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** int(e * 2)
    return None


def power(t, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    v = numval(t)
    if v is not None:
        r = _fpow(v, e)
        if r is not None:
            return num(r)
        return mk('poly', (Fraction(1), ((t, e),)))
    ms = _monos(t)
    if len(ms) == 1:
        c, m = ms[0]
        if e.denominator == 1 or c > 0:
            r = _fpow(c, e)
            if r is not None:
                base = _build({_norm_mono(tuple((a, x * e) for a, x in m)): Fraction(1)})
                return _reexpand(scale(base, r)) if base is not ZERO else ZERO
            ct = mk('poly', (Fraction(1), ((num(c), e),)))
            return mul(ct, _build({_norm_mono(tuple((a, x * e) for a, x in m)): Fraction(1)}))
        return mk('poly', (Fraction(1), ((t, e),)))
    if e.denominator == 1 and e > 0 and e <= 6:
        return mul(*([t] * int(e)))
    cont, prim = _content(t)
    if e.denominator == 1:
        r = _fpow(cont, e)
        if r is not None:
            return scale(mk('poly', (Fraction(1), ((prim, e),))), r)
    elif cont > 0 and _fpow(cont, e) is not None:
        return scale(mk('poly', (Fraction(1), ((prim, e),))), _fpow(cont, e))
    return mk('poly', (Fraction(1), ((t, e),)))


def div(a, b):
    if b is ZERO:
        return app('div0', a)
    return simplify_fraction(mul(a, power(b, -1)))


def simplify_fraction(t):
    """cancel a polynomial against a matching denominator atom."""
    if t.op != 'poly':
        return t
    dens = {}
    for c, m in t.args:
        for a, e in m:
            if a.op == 'poly' and e < 0 and e.denominator == 1:
                dens[a] = min(dens.get(a, 0), e)
    for a, e in dens.items():
        # all monomials carry a^e ?  multiply and compare with c*a
        if all(any(x is a and y == e for x, y in m) for _, m in t.args):
            stripped = _build({_norm_mono(tuple((x, y) for x, y in m if x is not a)): c
                               for c, m in t.args})
            q = _exact_quot(stripped, a)
            if q is not None:
                return simplify_fraction(mul(q, mk('poly', (Fraction(1), ((a, e + 1),)))
                                             if e + 1 != 0 else ONE))
    return t


def _exact_quot(p, a):
    """p / a when p == m * a for a single monomial m; else None."""
    pm, am = _monos(p), _monos(a)
    if len(pm) != len(am) or not am:
        return None
    c0, m0 = am[0]
    for c1, m1 in pm:
        m = _norm_mono(m1 + tuple((x, -e) for x, e in m0))
        cand = _build({m: c1 / c0})
        if mul(cand, a) is p:
            return cand
    return None


# ---------------------------------------------------------------- integers
def is_int(t):
    if t.op == 'sym':
        return t.args[1]
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a)
                                              for a, e in m) for c, m in t.args)
    if t.op == 'app':
        if t.args[0] in INT_FUNS:
            return True
        if t.args[0] == 'isel':
            return True
        if t.args[0] == 'sel' and t.args[1].op == 'app' and t.args[1].args[0] == 'shape':
            return True
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    return False


INT_FUNS = {'int', 'len', 'floordiv', 'mod', 'round_i', 'size', 'dim'}


# ---------------------------------------------------------------- booleans
def _sgn(op, p):
    """op in lt0, le0, eq0 on polynomial p."""
    v = numval(p)
    if v is not None:
        return TRUE if {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0}[op] else FALSE
    cont, prim = _content(p)
    if op == 'eq0':
        if p.op == 'const':
            return FALSE
        return mk('eq0', prim)
    q = prim if cont > 0 else neg(prim)
    if is_int(q):
        # integer comparison: strict form  q < 0  ->  q + 1 <= 0
        if op == 'lt0':
            q = add(q, ONE)
            op = 'le0'
        # divide by the gcd of non constant coefficients and floor the constant
        from math import gcd
        g = 0
        for c, m in _monos(q):
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            d = {}
            import math
            for c, m in _monos(q):
                d[m] = c / g if m != () else Fraction(math.ceil(c / g))
            q = _build(d)
    return mk(op, q)


def lt(a, b):
    return _sgn('lt0', sub(a, b))


def le(a, b):
    return _sgn('le0', sub(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' or b.op == 'const':
        if is_const(a) and is_const(b):
            return FALSE
        x, y = (a, b) if key(a) < key(b) else (b, a)
        if x in (TRUE, FALSE) and _is_boolish(y):
            return y if x is TRUE else not_(y)
        if y in (TRUE, FALSE) and _is_boolish(x):
            return x if y is TRUE else not_(x)
        return mk('same', x, y)
    if _is_boolish(a) and _is_boolish(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return _sgn('eq0', sub(a, b))


BOOL_OPS = {'lt0', 'le0', 'eq0', 'and', 'or', 'not', 'same', 'isnone', 'isinst', 'bool', 'in', 'raises'}
BOOL_FUNS = {'any', 'all', 'callable', 'hasattr', 'isinstance', 'bool', 'issubclass', 'isnan',
             'isfinite', 'contains', 'iter_ok'}


def _is_boolish(t):
    return t in (TRUE, FALSE) or t.op in BOOL_OPS or (t.op == 'app' and t.args[0] in BOOL_FUNS)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op == 'const' or a.op == 'poly' or _is_boolish(a):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    if a.op == 'app' and a.args[0] in NOTNONE_FUNS:
        return FALSE
    return mk('isnone', a)


NOTNONE_FUNS = {'zeros', 'ones', 'array', 'tuple', 'list', 'upd', 'sin', 'cos', 'sum', 'max',
                'min', 'copy', 'linspace', 'arange', 'len', 'int', 'concat', 'clip', 'dict', 'str'}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt0':
        return _sgn('le0', neg(a.args[0]))
    if a.op == 'le0':
        return _sgn('lt0', neg(a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    s = []
    for x in _flat('and', xs):
        if x is FALSE:
            return FALSE
        if x is TRUE or x in s:
            continue
        s.append(x)
    for x in s:
        if not_(x) in s:
            return FALSE
    # absorb: x and (x or y) -> x
    s2 = []
    for x in s:
        if x.op == 'or' and any(y in x.args for y in s if y is not x):
            continue
        if x.op == 'or':
            keep = [y for y in x.args if not_(y) not in s]
            if len(keep) != len(x.args):
                x = or_(*keep)
                if x is FALSE:
                    return FALSE
                if x is TRUE or x in s2:
                    continue
        s2.append(x)
    if s2 != s and len(s2) > 1 and any(x not in s for x in s2):
        return and_(*s2)
    s = s2
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(set(_flat('and', s)), key=key))


def or_(*xs):
    s = []
    for x in _flat('or', xs):
        if x is TRUE:
            return TRUE
        if x is FALSE or x in s:
            continue
        s.append(x)
    for x in s:
        if not_(x) in s:
            return TRUE
    s2 = []
    for x in s:
        if x.op == 'and' and any(y in x.args for y in s if y is not x):
            continue
        if x.op == 'and':
            keep = [y for y in x.args if not_(y) not in s]
            if len(keep) != len(x.args):
                x = and_(*keep)
                if x is TRUE:
                    return TRUE
                if x is FALSE or x in s2:
                    continue
        s2.append(x)
    if s2 != s and len(s2) > 1 and any(x not in s for x in s2):
        return or_(*s2)
    s = s2
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(set(_flat('or', s)), key=key))


def truth(t):
    """boolean view of an arbitrary term."""
    if _is_boolish(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == 'const':
        v = t.args[1]
        if isinstance(v, str):
            return TRUE if v else FALSE
        return mk('bool', t)
    v = numval(t)
    if v is not None:
        return TRUE if v != 0 else FALSE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return mk('bool', t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if _is_boolish(a) and _is_boolish(b):
        return or_(and_(c, a), and_(not_(c), b))
    nc = not_(c)
    if key(nc) < key(c):
        c, a, b = nc, b, a
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    return mk('ite', c, a, b)


def literals(c):
    return list(c.args) if c.op == 'and' else [c]


def assume(t, c, val=True, depth=0):
    """simplify ite conditions inside t under c (syntactic)."""
    if depth > 12 or not _has_ite(t):
        return t
    lits = literals(c) if val else literals(not_(c))
    return _assume(t, lits, {})


def _has_ite(t):
    if not isinstance(t, T):
        return False
    if t._deps is None:
        t._deps = _calc_deps(t)
    return t._deps[0]


def _calc_deps(t):
    has = t.op == 'ite'
    syms = set()
    if t.op in ('sym',):
        syms.add(t)
    stack = list(t.args)
    while stack:
        a = stack.pop()
        if isinstance(a, T):
            if a._deps is None:
                a._deps = _calc_deps(a)
            has = has or a._deps[0]
            syms |= a._deps[1]
        elif isinstance(a, tuple):
            stack.extend(a)
    return (has, frozenset(syms))


def syms(t):
    if t._deps is None:
        t._deps = _calc_deps(t)
    return t._deps[1]


def cond_under(c, lits):
    """truth of c given literals: TRUE/FALSE/None."""
    if c in lits:
        return True
    if not_(c) in lits:
        return False
    if c.op == 'and':
        r = [cond_under(x, lits) for x in c.args]
        if all(x is True for x in r):
            return True
        if any(x is False for x in r):
            return False
        return None
    if c.op == 'or':
        r = [cond_under(x, lits) for x in c.args]
        if any(x is True for x in r):
            return True
        if all(x is False for x in r):
            return False
        return None
    # sign reasoning between single comparisons:  p + a <= 0 implies p + b <= 0 when b <= a
    if c.op in ('lt0', 'le0', 'eq0'):
        for l in lits:
            r = _cmp_implies(l, c)
            if r is not None:
                return r
    return None


def _cmp_implies(l, c):
    """does literal l decide comparison c (both sign tests)?"""
    if l.op not in ('lt0', 'le0', 'eq0'):
        return None
    p, q = l.args[0], c.args[0]
    d = numval(sub(q, p))
    if d is not None:
        # q = p + d
        if l.op == 'eq0':
            return {'lt0': d < 0, 'le0': d <= 0, 'eq0': d == 0}[c.op]
        if c.op == 'eq0':
            if l.op == 'lt0' and d <= 0:
                return False
            if l.op == 'le0' and d < 0:
                return False
            return None
        if l.op == 'lt0' and d <= 0:
            return True
        if l.op == 'le0':
            if c.op == 'le0' and d <= 0:
                return True
            if c.op == 'lt0' and d < 0:
                return True
        return None
    d = numval(add(q, p))
    if d is not None:
        # q = d - p ; p <= 0 -> q >= d
        if l.op == 'eq0':
            return {'lt0': d < 0, 'le0': d <= 0, 'eq0': d == 0}[c.op]
        strict = l.op == 'lt0'
        if d > 0 or (d == 0 and strict):
            return False
        if d == 0 and not strict:
            if c.op == 'lt0':
                return False
    return None


def _assume(t, lits, memo):
    if not isinstance(t, T) or not _has_ite(t):
        return t
    if t in memo:
        return memo[t]
    if t.op == 'ite':
        r = cond_under(t.args[0], lits)
        if r is True:
            out = _assume(t.args[1], lits, memo)
        elif r is False:
            out = _assume(t.args[2], lits, memo)
        else:
            out = ite_raw(t.args[0], _assume(t.args[1], lits, memo), _assume(t.args[2], lits, memo))
    else:
        out = rebuild(t, lambda a: _assume(a, lits, memo))
    memo[t] = out
    return out


def ite_raw(c, a, b):
    if a is b:
        return a
    return mk('ite', c, a, b)


def rebuild(t, f):
    """reapply the constructor of t on f(children)."""
    if t.op == 'poly':
        acc = []
        for c, m in t.args:
            parts = [num(c)]
            for a, e in m:
                parts.append(power(f(a), e))
            acc.append(mul(*parts))
        return simplify_fraction(add(*acc))
    if t.op in ('sym', 'const'):
        return t
    if t.op in ('lt0', 'le0', 'eq0'):
        return _sgn(t.op, f(t.args[0]))
    if t.op == 'and':
        return and_(*[f(a) for a in t.args])
    if t.op == 'or':
        return or_(*[f(a) for a in t.args])
    if t.op == 'not':
        return not_(f(t.args[0]))
    if t.op == 'ite':
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if t.op == 'same':
        return eq(f(t.args[0]), f(t.args[1]))
    if t.op == 'isnone':
        return isnone(f(t.args[0]))
    if t.op == 'bool':
        return truth(f(t.args[0]))
    new = tuple(f(a) if isinstance(a, T) else
                (tuple(f(x) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a)
                for a in t.args)
    if t.op == 'app':
        return norm_app(new[0], *new[1:])
    return mk(t.op, *new)


def norm_app(f, *args):
    h = APP_NORM.get(f)
    if h:
        return h(*args)
    return app(f, *args)


def subst(t, m, memo=None):
    """substitute atoms (dict T->T), renormalising."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ('sym', 'const'):
        return t
    out = rebuild(t, lambda a: subst(a, m, memo))
    memo[t] = out
    return out


def sin(x):
    cont, prim = _content(x)
    if x is ZERO:
        return ZERO
    if cont < 0:
        return neg(app('sin', neg(x)))
    return app('sin', x)


def cos(x):
    cont, prim = _content(x)
    if x is ZERO:
        return ONE
    return app('cos', x if cont >= 0 else neg(x))


def sqrt(x):
    return power(x, Fraction(1, 2))


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tmin(a, b):
    return ite(lt(a, b), a, b)


def tabs(x):
    v = numval(x)
    if v is not None:
        return num(abs(v))
    cont, prim = _content(x)
    return scale(app('abs', prim), abs(cont))


def mod(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y:
        return num(x % y)
    return app('mod', a, b)


def floordiv(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y:
        return num(x // y)
    return app('floordiv', a, b)


# ------------------------------------------------------------------ bound variables
def binder(*bodies):
    """canonical bound index/accumulator for a body (numbered above every binder inside it)."""
    n = 0
    for b in bodies:
        for s in syms(b):
            m = str(s.args[0])
            if m.startswith('$k') and m[2:].isdigit():
                n = max(n, int(m[2:]))
            elif m.startswith('$st') and m[3:].split('_')[0].isdigit():
                n = max(n, int(m[3:].split('_')[0]))
            elif m.startswith('$acc') and m[4:].isdigit():
                n = max(n, int(m[4:]))
    n += 1
    return sym('$k%d' % n, True), sym('$acc%d' % n)


def bigsum(var, body, N):
    """sum of body over var in [0, N); loop invariant factors are pulled out."""
    if body.op == 'ite' and var not in syms(body.args[0]):
        return ite(body.args[0], bigsum(var, body.args[1], N), bigsum(var, body.args[2], N))
    out = []
    for c, m in _monos(body):
        inv = [(x, e) for x, e in m if var not in syms(x)]
        dep = tuple((x, e) for x, e in m if var in syms(x))
        f = _build({tuple(inv): c})
        if not dep:
            out.append(mul(f, N))
            continue
        d = _build({dep: Fraction(1)})
        v2, _ = binder(subst(d, {var: ZERO}))
        if v2 is not var:
            d = subst(d, {var: v2})
        out.append(mul(f, app('bigsum', v2, d, N)))
    return add(*out) if out else ZERO


def _scalar_index(it):
    return is_int(it) or (it.op == 'poly' and is_num(it))


def select(ot, it):
    """value of ot[it]."""
    if ot.op == 'app' and ot.args[0] == 'upd':
        _, base, j, val = ot.args
        if j is it:
            return val
        d = sub(j, it) if (is_int(j) or is_num(j)) and (is_int(it) or is_num(it)) else None
        if d is not None and numval(d) is not None and numval(d) != 0:
            # negative python indices are not comparable with positive ones
            if not ((is_num(j) and numval(j) < 0) != (is_num(it) and numval(it) < 0)):
                return select(base, it)
        return app('sel', ot, it)
    if ot.op == 'app' and ot.args[0] == 'zeros' and _scalar_index(it):
        s = ot.args[1]
        if s.op == 'app' and s.args[0] in ('tuple', 'shape'):
            if s.args[0] == 'tuple' and len(s.args) > 2:
                return app('zeros', s.args[2]) if len(s.args) == 3 else app('zeros', app('tuple', *s.args[2:]))
            return app('sel', ot, it)
        return ZERO
    if ot.op == 'app' and ot.args[0] == 'full' and _scalar_index(it) and \
            not (ot.args[1].op == 'app' and ot.args[1].args[0] in ('tuple', 'shape')):
        return ot.args[2]
    if ot.op == 'app' and ot.args[0] in ('tuple', 'list', 'array'):
        n = numval(it)
        if n is not None and n.denominator == 1 and 0 <= n < len(ot.args) - 1:
            return ot.args[1 + int(n)]
    if ot.op == 'app' and ot.args[0] == 'map' and _scalar_index(it) and not (is_num(it) and numval(it) < 0):
        return subst(ot.args[2], {ot.args[1]: it})
    if ot.op == 'app' and ot.args[0] == 'amap' and is_num(it) and numval(it) >= 0:
        _, k, base, body, n = ot.args
        if (is_num(n) and numval(n) > numval(it)) or (n.op == 'app' and n.args == ('len', base)):
            return subst(body, {k: it})
    if ot.op == 'app' and ot.args[0] == 'arange' and _scalar_index(it) and len(ot.args) == 2:
        return it
    return app('sel', ot, it)


APP_NORM = {'sel': select, 'sin': sin, 'cos': cos, 'sqrt': sqrt, 'abs': tabs, 'mod': mod, 'floordiv': floordiv}


# ---------------------------------------------------------------- equality
def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        for a in t:
            subterms(a, acc)
        return acc
    if not isinstance(t, T) or t in acc:
        return acc
    acc.add(t)
    for a in t.args:
        if isinstance(a, (T, tuple)):
            subterms(a, acc)
    return acc


def apps(t):
    """names of uninterpreted applications inside t."""
    return {s.args[0] for s in subterms(t) if s.op == 'app'}


def _cond_atoms(c, acc):
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            _cond_atoms(a, acc)
    elif c not in (TRUE, FALSE):
        acc.add(c)


def equal(a, b, depth=8):
    """are a and b the same value for all inputs (algebraic identity)?"""
    if a is b:
        return True
    conds = set()
    for t in subterms((a, b)):
        if t.op == 'ite':
            _cond_atoms(t.args[0], conds)
    if _is_boolish(a) or _is_boolish(b):
        if not (_is_boolish(a) and _is_boolish(b)):
            return False
        _cond_atoms(a, conds)
        _cond_atoms(b, conds)
        return _bool_equal(a, b, conds)
    if conds and depth > 0:
        for c in sorted(conds, key=key):
            split = [(set_cond(a, lit), set_cond(b, lit)) for lit in (c, not_(c))]
            if any(x is a and y is b for x, y in split):
                # a condition that cannot be resolved in place
                continue
            return all(equal(x, y, depth - 1) for x, y in split)
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return all((isinstance(x, T) and isinstance(y, T) and equal(x, y, depth - 1)) or x == y
                   for x, y in zip(a.args[1:], b.args[1:])) if depth > 0 else False
    try:
        return is_zero(sub(a, b))
    except RecursionError:
        return False


def _bool_equal(a, b, conds):
    conds = sorted(conds, key=key)
    if len(conds) > 12:
        return a is b
    for vals in itertools.product((True, False), repeat=len(conds)):
        lits = [c if v else not_(c) for c, v in zip(conds, vals)]
        if _contradictory(lits):
            continue
        x, y = cond_under(a, lits), cond_under(b, lits)
        if x is None and a in (TRUE, FALSE):
            x = a is TRUE
        if y is None and b in (TRUE, FALSE):
            y = b is TRUE
        if x != y:
            return False
    return True


def _contradictory(lits):
    for i, l in enumerate(lits):
        for k in lits[i + 1:]:
            if l.op in ('lt0', 'le0', 'eq0') and k.op in ('lt0', 'le0', 'eq0'):
                if _cmp_implies(l, k) is False or _cmp_implies(k, l) is False:
                    return True
            # not(eq0 p) together with ... ignored
    return False


def set_cond(t, lit):
    """replace condition literal by its truth value everywhere in ite conditions."""
    memo = {}

    def go(x):
        if not isinstance(x, T) or not _has_ite(x):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            c = _simp_cond(x.args[0], lit)
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                a, b = go(x.args[1]), go(x.args[2])
                r = a if a is b else mk('ite', c, a, b)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def _simp_cond(c, lit):
    r = cond_under(c, [lit])
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    if c.op == 'and':
        return and_(*[_simp_cond(x, lit) for x in c.args])
    if c.op == 'or':
        return or_(*[_simp_cond(x, lit) for x in c.args])
    if c.op == 'not':
        return not_(_simp_cond(c.args[0], lit))
    return c


def is_zero(t):
    for _ in range(6):
        if t is ZERO:
            return True
        dens = {}
        for c, m in _monos(t):
            for a, e in m:
                if a.op == 'poly' and e < 0:
                    dens[a] = min(dens.get(a, Fraction(0)), e)
        if not dens:
            return False
        out = []
        for c, m in _monos(t):
            d = dict(dens)
            parts = [num(c)]
            for a, e in m:
                if a in d:
                    e = e - d.pop(a)
                    if e:
                        parts.append(power(a, e))
                else:
                    parts.append(_build({((a, e),): Fraction(1)}))
            for a, e in d.items():
                parts.append(power(a, -e))
            out.append(mul(*parts))
        t = add(*out)
    return t is ZERO


def implies(lits, goal):
    """syntactic/sign implication: conjunction of lits => goal."""
    lits = [l for x in lits for l in literals(x)]
    if goal is TRUE:
        return True
    r = cond_under(goal, lits)
    if r is True:
        return True
    # disjunctive literals: case split (bounded)
    ors = [l for l in lits if l.op == 'or']
    if ors and len(ors) <= 4:
        o = ors[0]
        rest = [l for l in lits if l is not o]
        return all(implies(rest + literals(x), goal) or cond_under(x, rest) is False
                   for x in o.args)
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 7:
        return '..'
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return repr(t) if not isinstance(t, str) else t
    if t.op == 'sym':
        return str(t.args[0])
    if t.op == 'const':
        return repr(t.args[1])
    if t.op == 'poly':
        if not t.args:
            return '0'
        parts = []
        for c, m in t.args:
            s = '*'.join((show(a, d + 1) if a.op != 'poly' else '(' + show(a, d + 1) + ')')
                         + ('' if e == 1 else '^%s' % e) for a, e in m)
            if not s:
                s = str(float(c)) if c.denominator != 1 else str(c)
            elif c != 1:
                s = '%s*%s' % (c, s) if c != -1 else '-' + s
            parts.append(s)
        return ' + '.join(parts)
    if t.op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d + 1) for a in t.args[1:]))
    if t.op == 'lt0':
        return '%s < 0' % show(t.args[0], d + 1)
    if t.op == 'le0':
        return '%s <= 0' % show(t.args[0], d + 1)
    if t.op == 'eq0':
        return '%s == 0' % show(t.args[0], d + 1)
    if t.op in ('and', 'or'):
        return '(' + (' %s ' % t.op).join(show(a, d + 1) for a in t.args) + ')'
    if t.op == 'ite':
        return '{%s ? %s : %s}' % tuple(show(a, d + 1) for a in t.args)
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))
