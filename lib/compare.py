"""Deciding whether two extracted expressions denote the same value.

1. canonical forms (terms.equal): algebraic identity with case split on conditions;
2. if that fails, an identity test on the two *expressions* over a fixed family of valuations of their
   atoms (unknown operators are treated as uninterpreted functions, so congruence is kept).  It is only
   ever used to drop a spurious difference;
3. a remaining difference is reported only if every operator of the analysed expression is resolved:
   a known operator, or one the specification itself uses.  Otherwise the obligation is 'undecided'.
"""
import hashlib
import math
import time
from fractions import Fraction
import dense
import terms as t
from terms import T, app, sym, const

RESOLVED = {'sin', 'cos', 'sqrt', 'abs', 'mod', 'floordiv', 'int', 'sel', 'isel', 'tuple', 'list', 'array', 'bigsum',
            'len', 'shape', 'size', 'dim', 'zeros', 'ones', 'full', 'floor', 'ceil', 'T', 'concat', 'fmt', 'slice',
            'exp', 'log', 'max2', 'min2', 'kw:axis', 'kw:dtype', 'upd', 'sum', 'max', 'min', 'mean', 'argmax',
            'argmin', 'any', 'all', 'dict', 'rint', 'arange', 'ctor', 'uninit'}


class Bad(Exception):
    pass


def _h(*xs):
    d = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big')


def _rnd(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, Fraction)):
        x = float(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Bad()
        if x == 0:
            return 0.0
        return float('%.6e' % x) + 0.0
    if isinstance(x, tuple):
        return tuple(_rnd(y) for y in x)
    return x


SMALL = [0.0, 1.0, 2.0, -1.0, 3.0, 0.5, -2.0, 4.0]


class NotLiftable(Exception):
    pass


class Valuation:
    lifted = False

    def __init__(self, seed, regime, fixed=None):
        self.seed = seed
        self.regime = regime
        self.fixed = fixed or {}
        self.memo = {}

    over = {}           # values chosen by a witness search
    trace = None

    def chosen(self, tag, kind):
        if self.trace is not None:
            self.trace.append((tag, kind))
        return self.over.get(tag, MISS)

    def coin(self, *tag):
        r = self.chosen(tag, 'b')
        return bool(_h(self.seed, *tag) & 1) if r is MISS else r

    def pick(self, tag, isint=False):
        r = self.chosen(tag, 'i' if isint else 'n')
        if r is not MISS:
            return r
        h = _h(self.seed, tag)
        if self.regime == 'small':
            v = SMALL[h % len(SMALL)]
            return float(int(v)) if isint else v
        if self.regime == 'tiny':
            v = SMALL[h % 3]
            return v
        if isint:
            return float(1 + h % 7) if self.regime == 'pos' else float(h % 11 - 4)
        u = (h % (1 << 40)) / float(1 << 40)
        if self.regime == 'pos':
            return 0.15 + 2.7 * u
        return -2.5 + 5.0 * u

    parent = None

    def ev(self, x):
        r = self.memo.get(x, MISS)
        if r is not MISS:
            return r
        if self.parent is not None and self.own.isdisjoint(free(x)):
            return self.parent.ev(x)
        r = self._ev(x)
        self.memo[x] = r
        return r

    def is_fixed(self, x):
        return x in self.fixed

    def num(self, x):
        v = self.ev(x)
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        # structured / symbolic value in arithmetic
        return self.pick(('num', _rnd(v)))

    def b(self, x):
        v = self.ev(x)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        return self.coin('truth', _rnd(v))

    def _ev(self, x):
        op = x.op
        if op == 'sym':
            if x in self.fixed:
                return self.fixed[x]
            if x.args[0] == 'pi':
                return math.pi
            return self.pick(('sym', str(x.args[0])), bool(len(x.args) > 1 and x.args[1]))
        if op == 'const':
            return x.args[1]
        if op == 'poly':
            s = 0.0
            for c, m in x.args:
                p = float(c)
                for a, e in m:
                    v = self.num(a)
                    if e < 0 and v == 0:
                        raise Bad()
                    if e.denominator != 1 and v < 0:
                        raise Bad()
                    try:
                        p *= v ** float(e) if e.denominator != 1 else v ** int(e)
                    except OverflowError:
                        raise Bad()
                s += p
            return s
        if op in ('lt0', 'le0', 'eq0'):
            v = self.num(x.args[0])
            if abs(v) < 1e-11:
                v = 0.0
            return v < 0 if op == 'lt0' else v <= 0 if op == 'le0' else v == 0
        if op == 'and':
            return all([self.b(a) for a in x.args])
        if op == 'or':
            return any([self.b(a) for a in x.args])
        if op == 'not':
            return not self.b(x.args[0])
        if op == 'ite':
            return self.ev(x.args[1] if self.b(x.args[0]) else x.args[2])
        if op == 'bool':
            return self.b(x.args[0])
        if op == 'isnone':
            v = self.ev(x.args[0])
            if v is None:
                return True
            if self.is_fixed(x.args[0]):
                return False
            if x.args[0].op in ('sym',) or x.args[0].op == 'app' and x.args[0].args[0] in ('sel', 'attr'):
                r = self.chosen(('isnone', _rnd(v)), 'b')
                return bool(_h(self.seed, 'isnone', _rnd(v)) % 3 == 0) if r is MISS else r
            return False
        if op == 'same':
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            a, b = _rnd(a), _rnd(b)
            if a == b:
                return True
            if x.args[0].op == 'const' and x.args[1].op == 'const':
                return False
            k = sorted([repr(a), repr(b)])
            if isinstance(a, float) and isinstance(b, float):
                return False
            return self.coin('same', tuple(k))
        if op == 'app':
            return self.app(x)
        # other boolean / structural operators: uninterpreted
        vals = tuple(_rnd(self.ev(a)) if isinstance(a, T) else repr(a) for a in x.args)
        if op in t.BOOL_OPS:
            return self.coin(op, vals)
        if op in ('forall', 'ifran'):
            return self.coin(op, vals)
        return self.pick((op, vals))

    depth = 0

    def bound(self, var, body, pts):
        out = []
        if self.depth >= 2:
            # deep loop nests: one sampled iteration per level
            pts = (float(_h(self.seed, 'pt', self.depth) % 4),) if self.depth > 2 else pts[:2]
        for p in pts:
            v = Valuation(self.seed, self.regime, dict(self.fixed))
            v.lifted = self.lifted
            v.depth = self.depth + 1
            v.fixed[var] = p
            v.parent = self
            v.over, v.trace = self.over, self.trace
            v.own = frozenset((var,))
            out.append(v.ev(body))
        return out

    def app(self, x):
        f = x.args[0]
        a = x.args[1:]
        if f == 'never':
            return not self.b(a[0])
        if f == 'sin':
            return math.sin(self.num(a[0]))
        if f == 'cos':
            return math.cos(self.num(a[0]))
        if f == 'sqrt':
            v = self.num(a[0])
            if v < 0:
                raise Bad()
            return math.sqrt(v)
        if f == 'abs':
            return abs(self.num(a[0]))
        if f == 'exp' and len(a) == 1:
            v = self.num(a[0])
            if v > 50:
                raise Bad()
            return math.exp(v)
        if f in ('mod', 'floordiv'):
            p, q = self.num(a[0]), self.num(a[1])
            if q == 0:
                raise Bad()
            return p - q * math.floor(p / q) if f == 'mod' else float(math.floor(p / q))
        if f == 'int' and len(a) == 1:
            return float(math.trunc(self.num(a[0])))
        if f == 'floor' and len(a) == 1:
            return float(math.floor(self.num(a[0])))
        if f == 'ceil' and len(a) == 1:
            return float(math.ceil(self.num(a[0])))
        if f in ('max2', 'min2') and len(a) == 2:
            return (max if f == 'max2' else min)(self.num(a[0]), self.num(a[1]))
        if f in ('tuple', 'list', 'array') and all(isinstance(y, T) for y in a):
            return (f,) + tuple(self.ev(y) for y in a)
        if self.lifted and f in LIFT:
            return self.lift(f, a)
        if f == 'sfold':
            var, N, inits, nexts = a
            nm = str(var.args[0])[2:]
            sts = [[sym('$st%s_%d' % (nm, i), b) for b in (True, False)] for i in range(len(nexts.args) - 1)]
            col = refine(self, var, sts, inits.args[1:], nexts.args[1:])
            return ('sfold', _rnd(self.ev(N)), col[0])
        if f == 'bigsum':
            var, body, N = a
            n = _rnd(self.ev(N))
            vs = self.bound(var, body, (0.0, 1.0, 2.0))
            s = 0.0
            for i, v in enumerate(vs):
                if isinstance(v, bool):
                    v = float(v)
                if not isinstance(v, float):
                    v = self.pick(('num', _rnd(v)))
                w = 0.5 + (_h(self.seed, 'w', i, n) % 1000) / 1000.0
                s += w * v
            return s
        if f in ('map', 'amap', 'mapif', 'fold'):
            if f == 'map':
                var, body, N = a
                return ('map', tuple(_rnd(v) for v in self.bound(var, body, (0.0, 1.0, 2.0))), _rnd(self.ev(N)))
            if f == 'amap':
                var, init, body, N = a
                return ('amap', _rnd(self.ev(init)), tuple(_rnd(v) for v in self.bound(var, body, (0.0, 1.0, 2.0))),
                        _rnd(self.ev(N)))
            if f == 'mapif':
                var, body, c, N = a
                return ('mapif', tuple(_rnd(v) for v in self.bound(var, body, (0.0, 1.0, 2.0))),
                        tuple(self.bound(var, c, (0.0, 1.0, 2.0))), _rnd(self.ev(N)))
            var, acc, init, body, N = a
            self2 = Valuation(self.seed, self.regime, self.fixed)
            self2.fixed = dict(self.fixed)
            self2.fixed[acc] = 0.7
            self2.lifted = self.lifted
            self2.depth = self.depth
            self2.parent = self
            self2.over, self2.trace = self.over, self.trace
            self2.own = frozenset((acc,))
            return ('fold', _rnd(self.ev(init)), tuple(_rnd(v) for v in self2.bound(var, body, (0.0, 1.0, 2.0))),
                    _rnd(self.ev(N)))
        if f == 'upd' and len(a) == 3:
            return ('upd', self.ev(a[0]), _rnd(self.ev(a[1])), self.ev(a[2]))
        if f in ('sel', 'isel') and len(a) == 2:
            o = self.ev(a[0])
            i = _rnd(self.ev(a[1]))
            while isinstance(o, tuple) and o and o[0] == 'upd':
                if o[2] == i:
                    return o[3]
                if not isinstance(o[2], float) or not isinstance(i, float):
                    break
                o = o[1]
            if isinstance(o, tuple) and o and o[0] in ('tuple', 'list', 'array') and isinstance(i, float) \
                    and i == int(i) and 0 <= i < len(o) - 1:
                return o[1 + int(i)]
            return self.pick((f, _rnd(o), i), f == 'isel')
        vals = tuple(_rnd(self.ev(y)) if isinstance(y, T) else repr(y) for y in a)
        if f in t.BOOL_FUNS:
            return self.coin(f, vals)
        if f in ('concat', 'fmt', 'slice', 'dict', 'shape', 'zeros', 'ones', 'full', 'T'):
            return (f,) + vals
        return self.pick((f, vals), f in t.INT_FUNS)


MISS = object()
FREE = {}
NOSYMS = frozenset()


def free(x):
    """free symbols of a term (bound loop variables removed)."""
    r = FREE.get(x)
    if r is not None:
        return r
    if x.op == 'sym':
        r = frozenset((x,))
    elif x.op == 'poly':
        r = NOSYMS
        for c, m in x.args:
            for y, e in m:
                r = r | free(y)
    elif x.op == 'app' and x.args[0] in ('sfold', 'fold', 'bigsum', 'map', 'amap', 'mapif'):
        f, a = x.args[0], x.args[1:]
        if f == 'sfold':
            var, N, inits, nexts = a
            nm = '$st%s_' % str(var.args[0])[2:]
            r = free(N) | free(inits) | frozenset(
                y for y in free(nexts) if y is not var and not str(y.args[0]).startswith(nm))
        elif f == 'fold':
            var, acc, init, body, N = a
            r = free(init) | free(N) | (free(body) - {var, acc})
        elif f == 'amap':
            var, init, body, N = a
            r = free(init) | free(N) | (free(body) - {var})
        elif f == 'mapif':
            var, body, c, N = a
            r = free(N) | ((free(body) | free(c)) - {var})
        else:
            var, body, N = a
            r = free(N) | (free(body) - {var})
    else:
        r = NOSYMS
        for y in x.args:
            if isinstance(y, T):
                r = r | free(y)
    FREE[x] = r
    return r


DEPTH = {}
CANON = {}
GROUPS = {}


def canonical(x):
    """(S, j): the recurrence x is component j of S, a recurrence met before (or x itself)."""
    r = CANON.get(x)
    if r is not None:
        return r
    var, N, inits, nexts = x.args[1:]
    I, X = inits.args[1:], nexts.args[1:]
    nm = str(var.args[0])[2:]
    r = (x, 0)
    if len(I) <= 6:
        for S in GROUPS.get(N, ())[-40:]:
            v2, _, i2, n2 = S.args[1:]
            I2, X2 = i2.args[1:], n2.args[1:]
            if len(I2) < len(I) or not set(I) <= set(I2):
                continue
            nm2 = str(v2.args[0])[2:]
            for perm in matchings(I, I2):
                ren = {var: v2}
                for a, b in enumerate(perm):
                    for z in (True, False):
                        ren[sym('$st%s_%d' % (nm, a), z)] = sym('$st%s_%d' % (nm2, b), z)
                if all(t.subst(X[a], ren) is X2[b] for a, b in enumerate(perm)):
                    r = (S, perm[0])
                    break
            if r[0] is not x:
                break
    if r[0] is x:
        GROUPS.setdefault(N, []).append(x)
    CANON[x] = r
    return r


def matchings(I, I2, limit=48):
    out = []

    def go(k, used):
        if len(out) >= limit:
            return
        if k == len(I):
            out.append(list(used))
            return
        for j, y in enumerate(I2):
            if j not in used and y is I[k]:
                go(k + 1, used + [j])
    go(0, [])
    return out


class Finite(Valuation):
    """reads loops as what they are on small instances: every recurrence is unrolled over its evaluated extent, array
    updates are kept as finite maps.  Two summaries that agree on all instances describe the same loop nest in
    different shapes (fused, split, interchanged, other induction variables)."""
    LIMIT = 70000
    shared = None       # integer symbols and arrays common to several comparisons
    cache = {}
    ranges = {}         # integer array -> interval of its entries (set per obligation)
    content = None      # (valuation, array, position) -> entry, or None

    def __init__(self, seed, regime, fixed=None, ints=(frozenset(), frozenset()), steps=None):
        super().__init__(seed, regime, fixed)
        self.both = ints
        self.ints, self.intarr = ints
        self.intvals = self.negvals = None
        self.limits = None
        self.special = seed % 3 != 0
        self.steps = steps if steps is not None else [0]

    def pick(self, tag, isint=False):
        if not isint and tag and tag[0] == 'sym' and tag[1] in self.ints:
            isint = True
        if isint:
            return (1.0, 2.0, 3.0, 2.0, 1.0, 4.0, 0.0, 2.0, 1.0, 2.0)[_h(self.seed, tag) % 10]
        h = _h(self.seed, tag)
        if tag and tag[0] == 'sel':
            # some arrays are small or zero altogether
            z = _h(self.seed, 'scale', tag[1]) % 6
            if z == 0:
                return 0.0
            if z == 1:
                return ((h >> 7) % 1000) / 4000.0
        if self.special and h % 5 == 0:
            return (0.0, 1.0, 0.0, 2.0)[h // 5 % 4]
        u = (h % (1 << 40)) / float(1 << 40)
        return 0.15 + 2.7 * u if self.regime == 'pos' else -2.5 + 5.0 * u

    parent = None
    watch = frozenset()
    met = set()

    def ev(self, x):
        if x in Finite.watch:
            Finite.met.add(x)
        r = self.memo.get(x, MISS)
        if r is not MISS:
            return r
        if self.parent is not None and self.own.isdisjoint(free(x)):
            return self.parent.ev(x)
        r = self._ev(x)
        self.memo[x] = r
        return r

    def bound(self, var, body, pts):
        return [self.sub({var: p}).ev(body) for p in pts]

    def is_fixed(self, x):
        return x in self.fixed or self.parent is not None and self.parent.is_fixed(x)

    def sub(self, new):
        """valuation with the given further bindings; values that do not depend on them are shared."""
        v = Finite.__new__(Finite)
        v.seed, v.regime, v.both, v.ints, v.intarr = self.seed, self.regime, self.both, self.ints, self.intarr
        v.special, v.steps, v.intvals, v.limits = self.special, self.steps, self.intvals, self.limits
        v.negvals = self.negvals
        v.fixed = new
        v.own = frozenset(new)
        v.parent = self
        v.memo = {}
        return v

    def _ev(self, x):
        if x.op in ('and', 'or') and loop_depth(x, DEPTH) > 1:
            # cheap ones first
            stop = x.op == 'or'
            bad = False
            for y in sorted(x.args, key=lambda y: loop_depth(y, DEPTH)):
                try:
                    if self.b(y) is stop:
                        return stop
                except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
                    # undefined where another operand decides
                    if self.steps[0] > self.LIMIT:
                        raise
                    bad = True
            if bad:
                raise Bad()
            return not stop
        return super()._ev(x)

    def group(self, x):
        """values of all components of a simultaneous recurrence, and which of them x is."""
        S, j = canonical(x)
        k = ('group', S)
        v = self
        ss = free(S)
        while v.parent is not None and v.own.isdisjoint(ss):
            v = v.parent
        r = v.memo.get(k)
        if r is None:
            r = v.memo[k] = v.unroll(S)
        return r[j]

    def unroll(self, x):
        var, N, inits, nexts = x.args[1:]
        n = self.extent(N)
        nm = str(var.args[0])[2:]
        cur = [self.ev(y) for y in inits.args[1:]]
        for k in range(n):
            self.tick()
            fx = {var: float(k)}
            for i, c in enumerate(cur):
                for b in (True, False):
                    fx[sym('$st%s_%d' % (nm, i), b)] = c
            v = self.sub(fx)
            cur = [v.ev(y) for y in nexts.args[1:]]
        return cur

    def tick(self):
        self.steps[0] += 1
        if self.steps[0] > self.LIMIT:
            raise Bad()

    def extent(self, N):
        n = self.ev(N)
        if not isinstance(n, (int, float)):
            raise Bad()
        if abs(n - round(n)) > 1e-9 or n > 80:
            raise Bad()
        return max(0, int(round(n)))

    def num(self, x):
        v = self.ev(x)
        if isinstance(v, tuple) and v and v[0] == 'zeros':
            return 0.0
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return float(v)
        return self.pick(('num', _rnd(v)))

    def elem(self, o, i):
        i = _rnd(i)
        if isinstance(o, tuple) and o and o[0] == 'arr':
            for k, v in o[2]:
                if k == i:
                    return v
            o = o[1]
        if isinstance(o, tuple) and o:
            if o[0] == 'zeros' and isinstance(i, float):
                sh = o[1]
                if isinstance(sh, tuple) and len(sh) > 2 and sh[0] == 'tuple':
                    return ('zeros', ('tuple',) + sh[2:]) if len(sh) > 3 else ('zeros', sh[2])
                return 0.0
            if o[0] == 'ones':
                return 1.0
            if o[0] == 'full' and len(o) == 3 and isinstance(o[1], float):
                return o[2]
            if o[0] in ('tuple', 'list', 'array') and isinstance(i, float) and i == int(i) and 0 <= i < len(o) - 1:
                return o[1 + int(i)]
        return None

    def arr(self, o, i, v):
        i = _rnd(i)
        base, items = (o[1], dict(o[2])) if isinstance(o, tuple) and o and o[0] == 'arr' else (o, {})
        old = self.elem(base, i)
        if old is None:
            old = self.cell(_rnd(base), i)
        items.pop(i, None)
        if isinstance(base, tuple) and base and base[0] == 'uninit' or not (type(old) == type(v) and close(old, v)):
            items[i] = v
        if not items:
            return base
        return ('arr', base, tuple(sorted(items.items(), key=lambda p: repr(p[0]))))

    def app(self, x):
        f = x.args[0]
        a = x.args[1:]
        if f == 'full' and len(a) == 2:
            return ('full', _rnd(self.ev(a[0])), self.ev(a[1]))
        if f == 'uninit':
            return ('uninit', _rnd(self.ev(a[0]))) + tuple(repr(y) for y in a[1:])
        if f == 'sfold':
            return self.group(x)
        if f == 'fold':
            var, acc, init, body, N = a
            n = self.extent(N)
            cur = self.ev(init)
            for k in range(n):
                self.tick()
                cur = self.sub({var: float(k), acc: cur}).ev(body)
            return cur
        if f == 'bigsum':
            var, body, N = a
            s = 0.0
            for k in range(self.extent(N)):
                self.tick()
                s += self.sub({var: float(k)}).num(body)
            return s
        if f in ('map', 'amap'):
            var, body, N = (a[0], a[-2], a[-1])
            cur = self.ev(a[1]) if f == 'amap' else ('map', _rnd(self.ev(N)))
            for k in range(self.extent(N)):
                self.tick()
                cur = self.arr(cur, float(k), self.sub({var: float(k)}).ev(body))
            return cur
        if f == 'upd' and len(a) == 3:
            return self.arr(self.ev(a[0]), self.ev(a[1]), self.ev(a[2]))
        if f in ('sel', 'isel') and len(a) == 2:
            o = self.ev(a[0])
            i = _rnd(self.ev(a[1]))
            r = self.elem(o, i)
            if r is not None:
                return r
            if isinstance(o, tuple) and o and o[0] == 'arr':
                o = o[1]
            return self.cell(_rnd(o), i, f == 'isel')
        return super().app(x)

    def cell(self, base, i, isint=False):
        """initial content of an array."""
        if not isint and self.intarr:
            if self.intvals is None:
                self.intvals = {_rnd(self.ev(y)) for y in self.intarr if y.op == 'sym'}
                self.negvals = {_rnd(self.ev(y.args[1])) for y in self.intarr if y.op != 'sym'}
            isint = base in self.intvals
        if self.content is not None:
            r = self.content(self, base, i)
            if r is not None:
                return r
        v = self.pick(('sel', base, i), isint)
        if self.intarr and self.regime == 'mix' and self.intvals and base in self.negvals and _h(self.seed, 'neg', base, i) % 7 == 0:
            v = -1.0
        if self.ranges:
            if self.limits is None:
                self.limits = {_rnd(self.ev(y)): (self.num(n[0]), self.num(n[1])) for y, n in self.ranges.items()}
            n = self.limits.get(base)
            if n is not None:
                if n[1] <= n[0]:
                    raise Bad()
                v = n[0] + float(int(v) % int(n[1] - n[0]))
        return v


def extents(x):
    """names of the symbols loop extents and indices are made of."""
    out = set()
    for s in t.subterms(x):
        if s.op == 'app' and s.args[0] in ('sfold', 'fold', 'bigsum', 'map', 'amap'):
            N = s.args[2] if s.args[0] == 'sfold' else s.args[-1]
            out |= {str(y.args[0]) for y in t.syms(N)}
    return out


def int_arrays(x):
    """symbols that are read as integer arrays; signed(a): the sign of their entries is tested."""
    out = set()

    def root(y):
        while y.op == 'app' and y.args[0] in ('upd', 'amap', 'fold'):
            y = y.args[2] if y.args[0] == 'amap' else y.args[3] if y.args[0] == 'fold' else y.args[1]
        return y if y.op == 'sym' and not str(y.args[0]).startswith('$') else None
    for s in t.subterms(x):
        if s.op in ('lt0', 'le0'):
            p = s.args[0]
            ats = [y for c, m in p.args for y, e in m] if p.op == 'poly' else [p]
            if len(ats) == 1 and ats[0].op == 'app' and ats[0].args[0] == 'isel':
                y = root(ats[0].args[1])
                if y is not None:
                    out.add(t.app('signed', y))
        if s.op == 'app' and s.args[0] == 'isel':
            y = s.args[1]
            while y.op == 'app' and y.args[0] in ('upd', 'amap', 'fold'):
                y = y.args[2] if y.args[0] == 'amap' else y.args[3] if y.args[0] == 'fold' else y.args[1]
            if y.op == 'sym' and not str(y.args[0]).startswith('$'):
                out.add(y)
    return out


def loop_depth(x, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is None:
        r = max([loop_depth(y, memo) for y in x.args if isinstance(y, T)] or [0]) if x.op != 'poly' else \
            max([loop_depth(y, memo) for c, m in x.args for y, e in m] or [0])
        if x.op == 'app' and x.args[0] in ('sfold', 'fold', 'bigsum', 'map', 'amap'):
            r += 1
        memo[x] = r
    return r


def cells(v):
    """buffers every cell of which is known, without what they held before."""
    if isinstance(v, tuple) and v and v[0] in ('arr', 'zeros', 'uninit', 'full'):
        base, items = (v[1], dict(v[2])) if v[0] == 'arr' else (v, {})
        if isinstance(base, tuple) and base and base[0] in ('zeros', 'uninit', 'full') and len(base) > 1 \
                and isinstance(base[1], (int, float)) and 0 <= base[1] <= 200 and base[1] == int(base[1]):
            n = int(base[1])
            if all(isinstance(k, float) and 0 <= k < n for k in items) and (base[0] != 'uninit' or len(items) == n):
                return ('cells',) + tuple(items.get(float(k), base[2] if base[0] == 'full' else 0.0) for k in range(n))
        return v
    if isinstance(v, tuple):
        return tuple(cells(x) for x in v)
    return v


def some(v, x):
    """value of x; a condition on iterations $L.. holds if it holds for some of them."""
    if not t._is_boolish(x):
        return v.ev(x)
    if x.op == 'or':
        bad = False
        for y in sorted(x.args, key=lambda y: loop_depth(y, DEPTH)):
            try:
                if some(v, y):
                    return True
            except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
                if v.steps[0] > v.LIMIT:
                    raise
                bad = True
        if bad:
            raise Bad()
        return False
    ks = sorted([y for y in t.syms(x) if str(y.args[0]).startswith('$L')], key=t.key)
    if not ks:
        return v.b(x)
    if len(ks) > 3:
        raise Bad()
    r = v.memo.get(('some', x))
    if r is None:
        todo = [{}]
        for y in ks:
            todo = [{**d, y: float(i)} for d in todo for i in range(4)]
        r = False
        for d in todo:
            try:
                if v.sub(d).b(x):
                    r = True
                    break
            except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
                r = 'bad'
        v.memo['some', x] = r
    if r == 'bad':
        raise Bad()
    return r


def finite_agree(a, b, assume=(), count=1):
    r = None
    if Finite.shared is None and a is not b:
        parts = [x for x in (dense.own(a, b), dense.own(b, a)) if x]
        Finite.watch = frozenset().union(*parts)
        try:
            r = _finite_agree(a, b, assume, count, parts)
        finally:
            Finite.watch, Finite.met = frozenset(), set()
    else:
        r = _finite_agree(a, b, assume, count)
    if r is True and dense.largest((a,)) != dense.largest((b,)):
        return None         # positions beyond the small instances
    return r


def _finite_agree(a, b, assume=(), count=1, parts=()):
    """True: the summaries agree on every small instance; False: they differ on `count` of them; None: no usable instance."""
    ints = Finite.shared
    cache = Finite.cache
    if ints is None:
        ints = (frozenset(extents(a) | extents(b)), frozenset(int_arrays(a) | int_arrays(b)))
        cache = {}
    ok = bad = 0
    yes = [0, 0]
    boolish = t._is_boolish(a) and t._is_boolish(b)
    hits = 0
    t0 = time.time()
    for i in range(400 if boolish or parts else 80):
        if i >= 80 and not boolish and time.time() - t0 > 10:
            break
        for regime in ('pos', 'mix'):
            seed = _h('finite', regime, i)
            Finite.met = set()
            try:
                v = cache.get((seed, regime))
                if v is None:
                    v = cache[seed, regime] = Finite(seed, regime, None, ints)
                v.steps[0] = 0
                if not all([not some(v, c.args[1]) if c.op == 'app' and c.args[0] == 'never' else v.b(c) for c in assume]):
                    v = satisfying(assume, seed, regime, ints=ints) if count == 1 else None
                if v is None:
                    continue
                v.steps[0] = 0
                x, y = some(v, a), some(v, b)
                if not close(cells(x), cells(y)):
                    bad += 1
                    if bad >= count:
                        return False
                else:
                    ok += 1
                    hits += all(z & Finite.met for z in parts)
                    if boolish:
                        yes[bool(x)] += 1
            except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            except RecursionError:
                return None
        if ok >= 60 and hits >= 25 and (not boolish or min(yes) >= 60) and not (bad and i < 200):
            break
    if hits < 3:
        return None         # what tells them apart does not come into play
    return True if ok >= 6 and not bad else None


def refine(val, var, sts, inits, nexts, rounds=3):
    """order and name independent fingerprint of each component of a simultaneous recurrence."""
    col = [_rnd(val.ev(x)) for x in inits]
    for _ in range(rounds):
        fx = dict(val.fixed)
        for ss, c in zip(sts, col):
            n = 0.3 + (_h('col', c) % 100003) / 100003.0
            for y in ss:
                fx[y] = n
        v2 = Valuation(val.seed, val.regime, fx)
        v2.over, v2.trace = val.over, val.trace
        v2.lifted = val.lifted
        v2.depth = val.depth
        col = [(c, tuple(_rnd(v) for v in v2.bound(var, x, (0.0, 1.0, 2.0)))) if x is not None else (c, None)
               for c, x in zip(col, nexts)]
        col = ['%x' % _h('c', c) for c in col]
    return col


LOOPS = {'sfold', 'fold', 'bigsum', 'map', 'amap', 'upd'}
LIFT = {'map', 'amap', 'bigsum', 'sum', 'mean', 'zeros', 'ones', 'full', 'array', 'list'}
STRUCT = {'map', 'amap', 'bigsum', 'sum', 'mean', 'fold', 'sfold', 'mapif', 'upd', 'dot', 'cumsum', 'slice', 'outer',
          'where', 'loopexit'}


def _lift(self, f, a):
    """element-wise reading of an array expression: the generic element."""
    if f == 'zeros':
        return 0.0
    if f == 'ones':
        return 1.0
    if f == 'full':
        return self.num(a[1])
    if f in ('array', 'list'):
        return ('list',) + tuple(_rnd(self.ev(y)) for y in a)
    if f == 'sum' and len(a) == 1:
        return 3.7 * self.num(a[0])
    if f == 'mean' and len(a) == 1:
        return 3.7 * self.num(a[0]) / self.num(app('len', a[0]))
    if f in ('sum', 'mean'):
        raise NotLiftable()
    if f == 'amap':
        var, init, body, N = a
    else:
        var, body, N = a
    ren = {}
    for s in t.subterms(body):
        if s.op == 'app' and s.args[0] in ('sel', 'isel') and s.args[2] is var and var not in t.syms(s.args[1]):
            ren[s] = s.args[1]
    b = t.subst(body, ren) if ren else body
    if var in t.syms(b):
        raise NotLiftable()
    v = self.num(b)
    return 3.7 * v if f == 'bigsum' else v


Valuation.lift = _lift


def structure(x):
    return {s.args[0] for s in t.subterms(x) if s.op == 'app' and s.args[0] in STRUCT}


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return bool(a) == bool(b) if isinstance(a, (bool, float, int)) and isinstance(b, (bool, float, int)) else False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


PLAN = [('pos', i) for i in range(14)] + [('mix', i) for i in range(14)] + [('small', i) for i in range(60)] + \
       [('tiny', i) for i in range(24)]


POS = [('pos', i) for i in range(40)]


def satisfying(assume, seed, regime, ints=None):
    """a valuation on which the assumptions hold (local search over the values of their symbols), or None."""
    def make(fixed=None):
        return Valuation(seed, regime, fixed) if ints is None else Finite(seed, regime, fixed, ints)
    v = make()
    lits = []
    for c in assume:
        lits += t.literals(c)
    ss = sorted({x for c in lits for x in t.syms(c) if x.args[0] != 'pi'}, key=t.key)
    asg = {}
    rng = _Rng(seed & ((1 << 62) - 1))
    for x in ss:
        asg[x] = v.pick(('sym', str(x.args[0])), bool(len(x.args) > 1 and x.args[1]))
    bad = None
    for step in range(120):
        v = make(dict(asg))
        nb = []
        for c in lits:
            try:
                if not v.b(c):
                    nb.append(c)
            except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
                nb.append(c)
        if bad is None or len(nb) <= bad[0]:
            bad = (len(nb), dict(asg), nb)
        if not nb:
            return v
        cur = dict(bad[1])
        c = bad[2][rng(len(bad[2]))]
        cs = sorted([x for x in t.syms(c) if x.args[0] != 'pi'], key=t.key)
        if not cs:
            return None
        x = cs[rng(len(cs))]
        val = POOL[rng(len(POOL))]
        if rng(3) == 0:
            val = 3.0 * val + 0.25
        if regime == 'pos':
            val = abs(val) or 0.75
        if len(x.args) > 1 and x.args[1] or ints and str(x.args[0]) in ints[0]:
            val = float(int(val))
        cur[x] = val
        asg = cur
    return None


def differ(a, b, assume=(), domain=None, lifted=False, more=None):
    """number of valuations on which a and b differ / that were usable; None if none usable."""
    bad = ok = 0
    for regime, i in more or (POS if domain == 'pos' else PLAN):
        seed = _h(regime, i)
        try:
            v = satisfying(assume, seed, regime) if assume else Valuation(seed, regime)
            if v is None:
                continue
            v.lifted = lifted
            if lifted:
                v.memo = {}
            x, y = v.ev(a), v.ev(b)
            if close(x, y):
                ok += 1
            else:
                bad += 1
        except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        except (RecursionError, NotLiftable):
            return None
    if bad == 1 and not more:
        # once is not enough: look further
        e = differ(a, b, assume, domain, lifted, [(r, i + 1000) for r, i in PLAN] if domain != 'pos' else [(r, i + 1000) for r, i in POS])
        if e is not None:
            return bad + e[0], ok + e[1]
    return bad, ok


def opnames(x):
    out = set()
    for s in t.subterms(x):
        if s.op == 'app':
            out.add(s.args[0])
        elif s.op == 'sym':
            n = str(s.args[0])
            if n.startswith('mu') and ':' in n and n.split(':')[0][2:].isdigit():
                out.add('$mu')
            if n.startswith(('unknown:', 'unbound:', 'missing:')):
                out.add('$unknown')
        elif s.op in ('raises', 'forall', 'ifran', 'expr'):
            out.add('$' + s.op)
    return out


def opsyms(x):
    return {str(s.args[0]) for s in t.syms(x) if not str(s.args[0]).startswith('$')}


# ------------------------------------------------------------------ conditions
def _dnf(x, limit=400):
    if x.op == 'or':
        out = []
        for y in x.args:
            d = _dnf(y, limit)
            if d is None:
                return None
            out += d
        return out
    if x.op == 'and':
        out = [frozenset()]
        for y in x.args:
            d = _dnf(y, limit)
            if d is None:
                return None
            out = [p | q for p in out for q in d]
            if len(out) > limit:
                return None
        return out
    if x is t.FALSE:
        return []
    if x is t.TRUE:
        return [frozenset()]
    return [frozenset([x])]


def disjuncts(x):
    """disjunction as a set of conjunctions; a or (not a and b) becomes a or b."""
    ds = _dnf(x)
    if ds is None:
        return None
    ds = set(ds)
    while True:
        units = {next(iter(d)) for d in ds if len(d) == 1}
        new = set()
        for d in ds:
            if len(d) > 1:
                d = frozenset(l for l in d if t.not_(l) not in units)
                # a conjunction of literals that one unit already covers
                if any(l in units for l in d) and len(d) > 1:
                    continue
            new.add(d)
        # drop disjuncts implied by a smaller one
        new = {d for d in new if not any(e < d for e in new)}
        if new == ds:
            break
        ds = new
    return ds


POOL = [0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 5.0, -2.0, 1.5, 4.0, 7.0]


class _Rng:
    def __init__(self, seed):
        self.s = seed

    def __call__(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        return (self.s >> 33) % n


UNDEF = (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError)


def witness(lits, seed, steps=160):
    """a valuation on which all the literals hold: search over the values of the uninterpreted leaves they meet."""
    rng = _Rng(seed)
    over = {}

    def make(trace=None):
        v = Valuation(seed, 'small')
        v.over = over
        v.trace = trace
        return v

    def num(x):
        try:
            return make().num(x)
        except UNDEF:
            return None
    last = None
    for step in range(steps):
        v = make()
        bad = []
        for c in lits:
            try:
                if not v.b(c):
                    bad.append(c)
            except UNDEF:
                bad.append(c)
        if not bad:
            return v
        if last is not None and len(bad) > last[0] and rng(4):
            # undo
            over.clear()
            over.update(last[1])
            bad = last[2]
        last = (len(bad), dict(over), bad)
        c = bad[rng(len(bad))]
        tr = []
        try:
            make(tr).b(c)
        except UNDEF:
            pass
        tr = [x for x in dict.fromkeys(tr)]
        if not tr:
            return None
        tag, kind = tr[rng(len(tr))]
        if kind == 'b':
            over[tag] = not over.get(tag, not rng(2))
            continue
        if kind != 'b' and c.op in ('lt0', 'le0', 'eq0') and rng(4):
            over[tag] = 0.0
            p0 = num(c.args[0])
            over[tag] = 1.0
            p1 = num(c.args[0])
            if p0 is not None and p1 is not None and p0 != p1:
                goal = 0.0 if c.op == 'eq0' else -(0.0, 1.0, 0.5, 2.0)[rng(4)] if c.op == 'le0' else -(1.0, 0.5, 2.0)[rng(3)]
                x = (goal - p0) / (p1 - p0)
                if kind == 'i' and x != int(x):
                    x = float(math.floor(x) if p1 > p0 else math.ceil(x))
                over[tag] = admissible(tag, x)
                continue
        x = POOL[rng(len(POOL))]
        if kind == 'i':
            x = float(int(x))
        over[tag] = admissible(tag, x)
    return None


def admissible(tag, x):
    """lengths are counts."""
    if tag and tag[0] in ('len', 'size', 'dim', 'shape', 'num'):
        return float(abs(int(x)))
    return x


def directed(a, b, A, B, assume):
    """a valuation on which exactly one of two disjunctions holds, looked for from each disjunct they do not share."""
    t0 = time.time()
    given = []
    for c in assume:
        given += t.literals(c)
    n = 0
    for here, there in ((A - B, b), (B - A, a)):
        for d in sorted(here, key=lambda d: sorted(t.key(x) for x in d)):
            lits = sorted(d, key=t.key) + given
            n += 1
            if n > 80 or time.time() - t0 > 6:
                return False
            miss = 0
            for s in range(5):
                if time.time() - t0 > 8:
                    return False
                v = witness(lits, _h('w', s) & ((1 << 62) - 1))
                if v is None:
                    miss += 1
                    if miss > 1:
                        break
                    continue
                try:
                    if not v.b(there):
                        return True
                except UNDEF:
                    pass
    return False


def atoms_of(x, out):
    if x.op in ('and', 'or', 'not'):
        return all(atoms_of(y, out) for y in x.args)
    if x in (t.TRUE, t.FALSE):
        return True
    if x.op == 'isnone' and x.args[0].op == 'sym' or x.op == 'app' and x.args[0] == 'hasattr':
        out.add(x)
        return True
    return False


def truth_table(a, b, assume):
    """verdict on two conditions over independent yes/no facts (which values are absent)."""
    ats = set()
    if not (atoms_of(a, ats) and atoms_of(b, ats)):
        return None
    given = [c for c in assume if atoms_of(c, ats)]
    ats = sorted(ats, key=t.key)
    if len(ats) > 12 or not ats:
        return None

    def val(x, m):
        if x.op == 'and':
            return all(val(y, m) for y in x.args)
        if x.op == 'or':
            return any(val(y, m) for y in x.args)
        if x.op == 'not':
            return not val(x.args[0], m)
        return m[x] if x in m else x is t.TRUE
    import itertools
    for vs in itertools.product((False, True), repeat=len(ats)):
        m = dict(zip(ats, vs))
        if all(val(c, m) for c in given) and val(a, m) != val(b, m):
            return 'different' if len(given) == len(assume) else None
    return 'equal'


def bool_verdict(a, b, assume=()):
    r = truth_table(a, b, assume)
    if r:
        return r
    A, B = disjuncts(a), disjuncts(b)
    if A is None or B is None:
        return None
    if A == B:
        return 'equal'
    if directed(a, b, A, B, assume):
        return 'different'
    lens = {}
    for x in t.subterms(tuple([a, b]) + tuple(assume)):
        if x.op == 'app' and x.args[0] == 'len' and x.args[1].op == 'sym':
            lens[x] = t.sym('len:%s' % x.args[1].args[0], True)
    if lens:
        def ren(D):
            return {frozenset(t.subst(l, lens) for l in d) for d in D}
        A, B = ren(A), ren(B)
        assume = tuple(t.subst(x, lens) for x in assume)
    common = A & B
    ta = t.or_(*[t.and_(*d) for d in A - common]) if A - common else t.FALSE
    tb = t.or_(*[t.and_(*d) for d in B - common]) if B - common else t.FALSE
    tc = [t.and_(*d) for d in common]
    ss = set()
    for x in [ta, tb] + list(assume):
        ss |= set(t.syms(x))
    allss = set(ss)
    for x in tc:
        allss |= set(t.syms(x))
    allss = sorted([x for x in allss if x.args[0] != 'pi'], key=t.key)
    rel = sorted([x for x in ss if x.args[0] != 'pi'], key=t.key)
    rng = _Rng(20240117)
    near = {}
    for x in t.subterms(tuple([ta, tb] + tc) + tuple(assume)):
        if x.op in ('lt0', 'le0', 'eq0'):
            cs = [y for y in t.syms(x) if y.args[0] != 'pi']
            if len(cs) == 1:
                for n in (t.sub(cs[0], x.args[0]), t.add(cs[0], x.args[0])):
                    if t.is_num(n) and abs(t.numval(n)) > 8:
                        near.setdefault(cs[0], []).extend(float(t.numval(n)) + d for d in (-1, 0, 1))
    islen = set(lens.values())

    def draw(x):
        if x in islen:
            p = near.get(x, []) + [0.0, 1.0, 2.0, 3.0]
            return p[rng(len(p))]
        if rng(12) == 0:
            return None
        if x in near and rng(3) == 0:
            return near[x][rng(len(near[x]))]
        v = POOL[rng(len(POOL))]
        return float(int(v)) if len(x.args) > 1 and x.args[1] else v

    def state(asg, seed):
        v = Valuation(seed, 'small', dict(asg))
        try:
            if any(not v.b(c) for c in assume):
                return None
            return v.b(ta) != v.b(tb), [c for c in tc if v.b(c)]
        except (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return None

    hits = 0
    for trial in range(600):
        asg = {x: draw(x) for x in allss}
        seed = _h('bv', trial)
        r = state(asg, seed)
        if r is None or not r[0]:
            continue
        hits += 1
        if hits > 12:
            break
        for step in range(250):
            if not r[1]:
                return 'different'
            c = r[1][rng(len(r[1]))]
            cs = sorted([x for x in t.syms(c) if x.args[0] != 'pi'], key=t.key)
            if not cs:
                break
            x = cs[rng(len(cs))]
            new = dict(asg)
            new[x] = draw(x)
            r2 = state(new, seed)
            if r2 is not None and r2[0] and len(r2[1]) <= len(r[1]):
                asg, r = new, r2
        if not r[1]:
            return 'different'
    return 'undecided' if hits else 'equal'


WHOLE = {'reshape', 'ravel', 'T', 'mask', 'slice', 'axis', 'cumsum', 'arange', 'linspace', 'where', 'matmul', 'array',
         'zeros', 'ones', 'full', 'argmax', 'argmin', 'isel', 'sel', 'upd', 'sum', 'max', 'min', 'mean', 'any', 'len',
         'shape', 'map', 'amap', 'bigsum', 'fold', 'sfold', 'bigcat', 'concat'}


def unknowns(x):
    return any(s.op == 'sym' and str(s.args[0]).startswith(('unknown:', 'missing:')) for s in t.subterms(x))


def derived(x):
    """extents of computed (not given) arrays that a condition depends on."""
    return {s for s in t.subterms(x) if s.op == 'app' and s.args[0] in ('shape', 'len', 'size', 'dim')
            and s.args[1].op not in ('sym',)}


NULLABLE = set()        # symbols of parameters whose default is None


def truths(x):
    """optional parameters whose truth value is tested."""
    return {s.args[0] for s in t.subterms(x) if s.op == 'bool' and s.args[0] in NULLABLE}


def component_attr(x):
    return x.op == 'app' and str(x.args[0]).startswith('attr:')


def flags(xs):
    """truth tests of symbols that are used for nothing else."""
    bools, other, seen = set(), set(), set()
    stack = list(xs)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, t.T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'bool' and (x.args[0].op == 'sym' or component_attr(x.args[0])):
            bools.add(x)
            continue
        if x.op == 'sym' or component_attr(x):
            other.add(x)
        stack.extend(x.args)
    return sorted((x for x in bools if x.args[0] not in other), key=t.key)


def pins(assume):
    """lengths the assumptions fix to a number."""
    out = {}
    for c in assume:
        for l in t.literals(c):
            if l.op == 'eq0':
                for x in t.subterms(l.args[0]):
                    if x.op == 'app' and x.args[0] == 'len':
                        n = t.sub(x, l.args[0])
                        if not t.is_num(n):
                            n = t.add(x, l.args[0])
                        if t.is_num(n):
                            out[x] = n
    return out


def rowwise(x, memo):
    """a[i, rest] as a[i][rest] where i is a single (integer) position."""
    if x in memo:
        return memo[x]
    y = t.rebuild(x, lambda z: rowwise(z, memo))
    while y.op == 'app' and y.args[0] == 'sel' and len(y.args) == 3 and y.args[2].op == 'app' and y.args[2].args[0] == 'tuple' \
            and len(y.args[2].args) > 2 and (t.is_int(y.args[2].args[1]) or t.is_num(y.args[2].args[1])):
        p = y.args[2].args[1:]
        y = t.select(t.select(y.args[1], p[0]), p[1] if len(p) == 2 else t.app('tuple', *p[1:]))
    memo[x] = y
    return y


def verdict(a, b, vocab=(), assume=(), domain=None):
    a, b = leaked(a), leaked(b)
    v = verdict0(a, b, vocab, assume, domain)
    if v != 'equal':
        m = {}
        x, y = rowwise(a, m), rowwise(b, m)
        if x is y:
            return 'equal'
        if x is not a or y is not b:
            v = verdict0(x, y, vocab, assume, domain)
        if v != 'equal':
            m = {}
            x2, y2 = len_as_shape(x, m), len_as_shape(y, m)
            if x2 is y2 or (x2 is not x or y2 is not y) and verdict0(x2, y2, vocab, assume, domain) == 'equal':
                return 'equal'
    return v


def leaked(x):
    """loop-carried values that survive in an expression, numbered in order: the engine's counter does not matter."""
    ms = []
    for s in t.syms(x):
        n = str(s.args[0])
        if n.startswith('mu') and ':' in n and n[2:n.index(':')].isdigit():
            ms.append((int(n[2:n.index(':')]), n, s))
    if not ms:
        return x
    return t.subst(x, {s: t.sym('mu$%d' % i, bool(s.args[1])) for i, (_, _, s) in enumerate(sorted(ms, key=lambda p: p[:2]))})


def len_as_shape(x, memo):
    """len(a) as a.shape[0]."""
    if x in memo:
        return memo[x]
    y = t.rebuild(x, lambda z: len_as_shape(z, memo))
    if y.op == 'app' and y.args[0] == 'len' and len(y.args) == 2:
        from extmodels import shape_term
        y = t.select(shape_term(y.args[1]), t.ZERO)
    memo[x] = y
    return y


def verdict0(a, b, vocab=(), assume=(), domain=None):
    """'equal' | 'different' | 'undecided' for analysed expression a against specification b."""
    if a is b:
        return 'equal'
    xs = sorted({s.args[0] for x in (a, b) for s in t.subterms(x) if s.op == 'isnone' and s.args[0] in NULLABLE}, key=t.key)
    if xs and len(xs) <= 4:
        # optional parameters: given or not
        out = set()
        x = xs[0]
        vocab = set(vocab) | opnames(b)
        for m in ({x: t.NONE}, {t.isnone(x): t.FALSE}):
            asm = [t.subst(c, m) for c in assume]
            if t.FALSE in asm:
                continue
            out.add(verdict(t.subst(a, m), t.subst(b, m), vocab, tuple(c for c in asm if c is not t.TRUE), domain))
        return 'different' if 'different' in out else 'undecided' if 'undecided' in out else 'equal'
    xs = flags([a, b] + list(assume))
    if xs and len(xs) <= 4:
        out = set()
        vocab = set(vocab) | opnames(b)
        for v in (t.TRUE, t.FALSE):
            m = {xs[0]: v}
            asm = [t.subst(c, m) for c in assume]
            if t.FALSE in asm:
                continue
            out.add(verdict(t.subst(a, m), t.subst(b, m), vocab, tuple(c for c in asm if c is not t.TRUE), domain))
        return 'different' if 'different' in out else 'undecided' if 'undecided' in out else 'equal'
    p = pins(assume)
    if p:
        a, b = t.subst(a, p), t.subst(b, p)
        assume = tuple(y for y in (t.subst(x, p) for x in assume) if y is not t.TRUE)
        if a is b or t.FALSE in assume:
            return 'equal'
    r = _verdict(a, b, vocab, assume, domain)
    if r == 'undecided' and not unknowns(a):
        if a is t.NONE and t.isnone(b) is t.FALSE or b is t.NONE and t.isnone(a) is t.FALSE:
            return 'different'          # a value where none is wanted, or none where one is
    if r == 'equal':
        for x in sorted(truths(a) ^ truths(b), key=t.key):
            m = {x: t.NONE}
            a2, b2 = t.subst(a, m), t.subst(b, m)
            if a2 is not b2 and _verdict(a2, b2, vocab, [t.subst(c, m) for c in assume], domain) == 'different':
                return 'different'
        return r
    na, nb = opnames(a), opnames(b)
    if (na | nb) & WHOLE and max(loop_depth(a), loop_depth(b)) < 4:
        d, opaque = dense.agree(a, b, assume)
        if d is True:
            return 'equal'
        if d == 'quiet' and r == 'different' and (derived(a) - derived(b) or derived(b) - derived(a)):
            return 'undecided'
        if d is False and r == 'undecided' and opaque <= nb | set(vocab) and not unknowns(a):
            return 'different'
    if r == 'different' and unknowns(a):
        return 'undecided'
    return r


def _verdict(a, b, vocab=(), assume=(), domain=None):
    deep = max(loop_depth(a), loop_depth(b)) >= 4
    if t._is_boolish(a) and t._is_boolish(b) and not deep:
        r = bool_verdict(a, b, assume)
        if r == 'different':
            un = opnames(a) - (RESOLVED | set(vocab) | opnames(b))
            return 'undecided' if un else 'different'
        if r is not None:
            return r
    if deep:
        # nests of loops: compared on small instances
        r = finite_agree(a, b, assume, 2)
        if r is True:
            return 'equal'
        if r is False:
            return 'undecided' if opnames(a) - (RESOLVED | LOOPS | set(vocab) | opnames(b)) else 'different'
        return 'undecided'
    try:
        if t.equal(a, b):
            return 'equal'
    except RecursionError:
        return 'undecided'
    d = differ(a, b, (), domain)
    if d is not None and d[0] and assume:
        d = differ(a, b, assume, domain)
    if d is None:
        return 'undecided'
    bad, ok = d
    if bad < 2:
        if ok < 5:
            return 'undecided'
        # the fingerprints agree; small instances have the last word
        if (structure(a) | structure(b)) & {'sfold', 'fold', 'loopexit'} and finite_agree(a, b, assume, 2) is False:
            pass
        elif (opnames(a) | opnames(b)) & WHOLE and dense.agree(a, b, assume, 3.0)[0] is False:
            pass
        else:
            return 'equal'
    if (structure(a) | structure(b)) & LOOPS and finite_agree(a, b, assume):
        return 'equal'
    known = RESOLVED | LOOPS | set(vocab) | opnames(b)
    un = opnames(a) - known
    if un:
        return 'undecided'
    if structure(a) != structure(b):
        # loop in one, whole-array expression in the other: compare the generic element
        d = differ(a, b, assume, domain, lifted=True)
        if d is None or d[0] == 0:
            return 'equal' if d and d[1] >= 5 else 'undecided'
    return 'different'
