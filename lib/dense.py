"""Array expressions read as what they are on small arrays.

Whole-array code can be written in many ways (reshape and sum, slices, masks, loops, broadcasting).  Two extracted
expressions that canonical forms could not identify are compared here as functions of small arrays: every operator with
a numpy meaning keeps it, everything else stays an uninterpreted function of its arguments.
"""
import math
import time
import terms as t
from terms import T

try:
    import numpy as np
except ImportError:         # pragma: no cover - the verdict then stays with the canonical forms
    np = None


class Bad(Exception):
    """no value on this instance."""


class Unsupported(Exception):
    """an operator without a reading here."""


TYPED = {}
LOOPS = ('sfold', 'fold', 'bigsum', 'map', 'amap', 'mapif', 'bigcat')
REDUCE = {'sum', 'max', 'min', 'mean', 'std', 'argmax', 'argmin', 'prod', 'cumsum', 'ptp', 'any'}
NUMPY = {'tan', 'exp', 'log', 'log10', 'arcsin', 'arccos', 'arctan', 'floor', 'ceil', 'rint', 'sign', 'sinh', 'cosh',
         'tanh', 'isnan', 'isfinite', 'deg2rad', 'rad2deg', 'degrees', 'radians', 'around', 'trunc', 'diff', 'gradient',
         'sort', 'argsort', 'unique', 'log2', 'expm1', 'log1p', 'squeeze', 'swapaxes', 'rollaxis', 'moveaxis',
         'expand_dims', 'broadcast_to', 'flip', 'flipud', 'fliplr', 'transpose', 'nan_to_num', 'ravel', 'linspace',
         'matmul', 'real', 'imag', 'conj', 'where'}
NPFUN = {'hstack', 'vstack', 'stack', 'concatenate', 'column_stack', 'append', 'outer', 'repeat', 'tile', 'roll', 'cross',
         'count_nonzero', 'nonzero', 'flatnonzero', 'argwhere', 'take', 'searchsorted', 'bincount', 'interp', 'trapz',
         'average', 'median', 'percentile', 'meshgrid', 'indices', 'add.reduceat', 'split', 'array_split', 'delete',
         'insert', 'cumprod', 'polyfit', 'polyval', 'convolve', 'einsum', 'tensordot', 'inner', 'vdot', 'triu', 'tril',
         'diag', 'eye', 'identity', 'isclose', 'allclose', 'array_equal', 'digitize', 'histogram', 'clip', 'hypot',
         'arctan2', 'logspace', 'pad', 'resize', 'rot90', 'unravel_index', 'ravel_multi_index', 'nanmax', 'nanmin',
         'nansum', 'isin', 'in1d', 'partition', 'lexsort', 'apply_along_axis_', 'trapezoid', 'cbrt', 'fmod', 'float_power',
         'compress', 'extract', 'select', 'choose', 'block', 'dstack', 'ediff1d', 'heaviside', 'nanmean', 'prod'}
METH = {'sum', 'mean', 'max', 'min', 'item', 'take', 'nonzero', 'repeat', 'round', 'searchsorted', 'cumprod', 'argsort',
        'diagonal', 'trace', 'compress'}


def _h(*xs):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


def mark(v):
    """hashable reading of a value, rounded."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, slice):
        return ('slice', mark(v.start), mark(v.stop), mark(v.step))
    if isinstance(v, (tuple, list)):
        return ('seq',) + tuple(mark(x) for x in v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            raise Bad()
        if v.dtype == bool:
            return ('ba', v.shape, tuple(bool(x) for x in v.ravel()))
        return ('a', v.shape, tuple(mark(float(x)) for x in v.ravel()))
    if isinstance(v, np.bool_):
        return bool(v)
    x = float(v)
    if math.isnan(x) or math.isinf(x):
        raise Bad()
    return 0.0 if x == 0 else float('%.6e' % x) + 0.0


def arrayish(v):
    return isinstance(v, np.ndarray) and v.ndim > 0


def ranks(xs):
    """least number of dimensions of each free symbol that is used as an array."""
    need = {}
    changed = [True]

    def req(x, r):
        if r <= 0:
            return
        if x.op == 'sym':
            if need.get(x, 0) < r:
                need[x] = r
                changed[0] = True
            return
        if x.op == 'poly':
            ats = [a for c, m in x.args for a, e in m]
            known = [a for a in ats if any(need.get(s, 0) for s in t.syms(a))]
            for a in known or ats:
                if a.op == 'sym' and len(a.args) > 1 and a.args[1] and known != [a]:
                    continue
                req(a, r)
            return
        if x.op == 'ite':
            req(x.args[1], r)
            req(x.args[2], r)
            return
        if x.op == 'app':
            f, a = x.args[0], x.args[1:]
            if f in ('sel', 'isel') and len(a) == 2:
                idx(a[0], a[1], r)
            elif f in ('abs', 'sin', 'cos', 'sqrt', 'exp', 'int', 'floor', 'ceil', 'T', 'amap', 'nan_to_num'):
                req(a[0], r)
            elif f in ('upd', 'mask'):
                req(a[0], r)
            elif f in ('max2', 'min2', 'mod', 'floordiv'):
                req(a[0], r)
            elif f in REDUCE and len(a) > 1:
                req(a[0], r + 1)

    def idx(o, i, r):
        parts = i.args[1:] if i.op == 'app' and i.args[0] == 'tuple' else (i,)
        used = kept = 0
        for p in parts:
            if p is t.NONE:
                kept += 1
                continue
            used += 1
            if p.op == 'app' and p.args[0] in ('slice', 'ALL') or t._is_boolish(p):
                kept += 1
        req(o, used + max(0, r - kept))

    terms = set()
    for x in xs:
        terms |= set(t.subterms(x))
    for x, h in TYPED.items():
        if h == 'arr':
            req(x, 1)
    n = 0
    while changed[0] and n < 6:
        changed[0] = False
        n += 1
        for s in terms:
            if s.op != 'app':
                continue
            f, a = s.args[0], s.args[1:]
            if f in ('sel', 'isel') and len(a) == 2:
                if a[0].op == 'app' and a[0].args[0] == 'shape' and t.is_num(a[1]):
                    k = int(t.numval(a[1]))
                    req(a[0].args[1], k + 1 if k >= 0 else -k)
                else:
                    idx(a[0], a[1], 0)
            elif f == 'upd' and len(a) == 3:
                idx(a[0], a[1], 0)
            elif f == 'mask':
                req(a[0], 1)
            elif f in ('len', 'size', 'ravel', 'reshape', 'shape') and a:
                req(a[0], 1)
            elif f == 'T':
                req(a[0], 2)
            elif f in REDUCE and a and f != 'any':
                k = 1
                for y in a[1:]:
                    if y.op == 'app' and y.args[0] in ('axis', 'kw:axis') and t.is_num(y.args[1]):
                        z = int(t.numval(y.args[1]))
                        k = max(k, z + 1 if z >= 0 else -z)
                req(a[0], k)
    return need


class Instance:
    edges = None

    big = 0
    texts = ()
    sized = {}

    def __init__(self, seed, need, facts, opaque, seen):
        self.seed = seed
        self.need = need
        self.facts = facts
        self.opaque = opaque
        self.seen = seen            # condition -> set of outcomes
        self.memo = {}
        self.bound = {}
        self.steps = 0
        self.met = set()            # expressions evaluated
        h = _h('mode', seed)
        self.dims = [(2, 3), (3, 2), (4, 3), (3, 4), (3, 3), (2, 4), (5, 3), (1, 3), (6, 4), (4, 6), (2, 9), (9, 2),
                     (3, 8), (8, 3), (11, 2), (2, 12)][h % 16]
        self.lattice = h // 16 % 3 == 0

    # ------------------------------------------------------------ leaves
    def scalar(self, *tag):
        h = _h(self.seed, *tag)
        if self.lattice:
            return (0.0, 1.0, 2.0, 1.0, 3.0, 0.0, -1.0 if _h(self.seed, 'sign') % 2 else 4.0)[h % 7]
        z = h % 7
        if z == 0:
            return (0.0, 1.0, 2.0, -1.0, 0.5)[h // 7 % 5]
        u = (h // 7 % (1 << 40)) / float(1 << 40)
        return 0.15 + 2.7 * u if _h(self.seed, 'sign') % 2 else -2.5 + 5.0 * u

    def integer(self, *tag):
        h = _h(self.seed, *tag)
        if h % 3 == 0:
            return float(self.dims[h // 3 % 2])
        return float((0, 1, 2, 3, 1, 2, 4, 5, -1, 6)[h // 3 % 10])

    def array(self, shape, isint, *tag):
        n = 1
        for s in shape:
            n *= s
        if n > 400:
            raise Bad()
        f = self.integer if isint else self.scalar
        return np.array([f(k, *tag) for k in range(n)], dtype=float).reshape(shape)

    def leaf(self, x):
        nm = str(x.args[0])
        if nm == 'pi':
            return math.pi
        if nm == 'unbound:':
            return '$unbound'
        if nm in ('inf', 'nan') or nm.startswith(('unknown:', 'unbound:', 'missing:', '$')):
            raise Unsupported(nm)
        if nm.startswith('const_'):
            return 0.5 + (_h(nm) % 1000) / 1000.0
        nn, strs, ints, cells = self.facts
        if x in nn and _h(self.seed, 'none', nm) % 4 == 0:
            return None
        if x in strs:
            c = sorted(strs[x]) + ['other']
            return c[_h(self.seed, 'str', nm) % len(c)]
        r = self.need.get(x, 0)
        if r == 1 and x in self.sized and _h(self.seed, 'sized', nm) % 4:
            n = self.int(self.sized[x])
            if not 0 <= n <= 60:
                raise Bad()
            return self.array((n,), bool(len(x.args) > 1 and x.args[1]) or x in cells, 'cell', nm)
        isint = bool(len(x.args) > 1 and x.args[1]) or x in ints
        if r == 0:
            return self.integer('sym', nm) if isint else self.scalar('sym', nm)
        h = _h(self.seed, 'shape', nm)
        if r == 1:
            shape = (self.dims[h % 2],)
            if Instance.big and h // 2 % 4:
                shape = (Instance.big - 1 + h // 8 % 5,)
        else:
            shape = tuple(self.dims[(h + k) % 2] for k in range(r))
            if h // 4 % 3:
                shape = tuple(self.dims[(k + r) % 2] for k in range(r))
        return self.array(shape, isint or x in cells, 'cell', nm)

    # ------------------------------------------------------------ evaluation
    def ev(self, x):
        if self.bound and not self.closed(x):
            self.met.add(x)
            return self._ev(x)
        r = self.memo.get(x, self)
        if r is self:
            self.met.add(x)
            r = self.memo[x] = self._ev(x)
        return r

    def closed(self, x):
        import compare
        f = compare.free(x)
        return not any(y in self.bound for y in f)

    def tick(self):
        self.steps += 1
        if self.steps > 6000:
            raise Bad()

    def num(self, x):
        v = self.ev(x)
        if v is None or isinstance(v, (str, slice)):
            raise Bad()
        if isinstance(v, (tuple, list)):
            try:
                v = np.array(v, dtype=float)
            except (ValueError, TypeError):
                raise Bad()
        if isinstance(v, (bool, np.bool_)):
            return float(v)
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return v.astype(float)
        return v

    def int(self, x):
        v = self.num(x)
        if isinstance(v, np.ndarray):
            if v.ndim:
                raise Bad()
            v = float(v)
        if abs(v - round(v)) > 1e-9:
            raise Bad()
        return int(round(v))

    def cond(self, x):
        v = self.ev(x)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        if arrayish(v):
            if v.dtype != bool:
                v = v != 0
            return v
        if v is None:
            return False
        if isinstance(v, (str, tuple, list)):
            return len(v) > 0
        return bool(v)

    def check(self, v):
        if isinstance(v, np.ndarray):
            if v.dtype != bool and not np.all(np.isfinite(v)):
                raise Bad()
        elif isinstance(v, (float, np.floating)):
            if not math.isfinite(v):
                raise Bad()
        return v

    def _ev(self, x):
        op = x.op
        if op == 'sym':
            if x in self.bound:
                return self.bound[x]
            return self.leaf(x)
        if op == 'const':
            return x.args[1]
        if op == 'poly':
            s = 0.0
            for c, m in x.args:
                p = float(c)
                for a, e in m:
                    v = self.num(a)
                    if e < 0 and np.any(np.asarray(v) == 0):
                        raise Bad()
                    if e.denominator != 1 and np.any(np.asarray(v) < 0):
                        raise Bad()
                    p = p * (v ** float(e) if e.denominator != 1 else v ** int(e) if e > 0 else 1.0 / v ** int(-e))
                s = s + p
            return self.check(s)
        if op in ('lt0', 'le0', 'eq0'):
            v = self.num(x.args[0])
            v = np.where(np.abs(v) < 1e-9, 0.0, v)
            if self.edges is not None:
                if np.any(v == 0):
                    self.edges[x] = self.edges.get(x, 0) + 1
                else:
                    self.edges.setdefault(x, 0)
            r = v < 0 if op == 'lt0' else v <= 0 if op == 'le0' else v == 0
            return r if r.ndim else bool(r)
        if op in ('and', 'or'):
            stop = op == 'or'
            out = None
            bad = None
            for a in x.args:
                try:
                    v = self.cond(a)
                except Bad as e:
                    bad = e
                    continue
                if not arrayish(v):
                    if v is stop:
                        return stop
                    continue
                out = v if out is None else (out | v if stop else out & v)
            if bad is not None:
                raise bad
            return (not stop) if out is None else out
        if op == 'not':
            v = self.cond(x.args[0])
            return ~v if arrayish(v) else not v
        if op == 'ite':
            c = self.cond(x.args[0])
            s = self.seen.setdefault(x.args[0], set())
            if arrayish(c):
                s.update(bool(z) for z in np.unique(c))
                return np.where(c, self.num(x.args[1]), self.num(x.args[2]))
            s.add(c)
            return self.ev(x.args[1] if c else x.args[2])
        if op == 'bool':
            return self.cond(x.args[0])
        if op == 'isnone':
            return self.ev(x.args[0]) is None
        if op == 'same':
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if isinstance(b, str):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, (float, np.floating)) and a in Instance.texts:
                # the text an uninterpreted operation yields
                c = Instance.texts
                return a == (c + ('$other',))[_h(self.seed, 'text', mark(b)) % (len(c) + 1)]
            return mark(a) == mark(b)
        if op == 'isinst':
            return self.isinst(x.args[0], x.args[1])
        if op == 'in':
            v, c = self.ev(x.args[0]), self.ev(x.args[1])
            if isinstance(c, (tuple, list, np.ndarray)):
                return mark(v) in [mark(z) for z in c]
            return bool(_h(self.seed, 'in', mark(v), mark(c)) & 1)
        if op == 'app':
            return self.check(self.app(x.args[0], x.args[1:], x))
        raise Unsupported(op)

    def isinst(self, x, c):
        import extmodels
        v = self.ev(x)
        if v is None:
            return False
        if isinstance(v, str):
            ty = 'str'
        elif isinstance(v, bool):
            ty = 'bool'
        elif arrayish(v):
            ty = 'arr'
            if x.op == 'sym' and TYPED.get(x) != 'arr':
                ty = ('arr', 'list', 'tuple')[_h(self.seed, 'kind', str(x.args[0])) % 3]
        elif isinstance(v, (tuple, list)):
            ty = type(v).__name__
        else:
            ty = 'int' if t.is_int(x) else 'float'
        r = extmodels._typed_isinst(ty, c)
        return bool(r)

    def index(self, x):
        """value of an index."""
        if x.op == 'app' and x.args[0] == 'tuple':
            return tuple(self.index(y) for y in x.args[1:])
        if x.op == 'app' and x.args[0] == 'slice':
            return slice(*[None if self.ev(y) is None else self.int(y) for y in x.args[1:]])
        if x.op == 'app' and x.args[0] == 'ALL':
            return slice(None)
        if x.op == 'app' and x.args[0] == 'Ellipsis':
            return Ellipsis
        v = self.ev(x)
        if isinstance(v, np.ndarray):
            self.mixed(x, v)
        return self.as_index(v)

    def as_index(self, v):
        if v is None or isinstance(v, (slice, str)):
            return v
        if isinstance(v, (tuple, list)):
            return tuple(self.as_index(y) for y in v) if isinstance(v, tuple) else \
                self.as_index(np.array(v, dtype=float))
        if isinstance(v, (bool, np.bool_)):
            raise Bad()
        if isinstance(v, np.ndarray):
            if v.dtype == bool:
                return v
            if np.any(np.abs(v - np.round(v)) > 1e-9):
                raise Bad()
            return np.round(v).astype(int) if v.ndim else int(round(float(v)))
        if abs(v - round(v)) > 1e-9:
            raise Bad()
        return int(round(v))

    def take(self, o, i):
        if isinstance(o, (tuple, list, str)):
            if isinstance(i, (int, slice)) and not isinstance(i, bool):
                return o[i]
            o = np.array(o, dtype=float)
        if isinstance(o, dict):
            return o[i]
        if not isinstance(o, np.ndarray):
            raise Bad()
        r = o[i]
        return r if isinstance(r, np.ndarray) else float(r) if not isinstance(r, np.bool_) else bool(r)

    def arr(self, x):
        v = self.num(x)
        return np.asarray(v)

    def with_(self, new, body):
        old = self.bound
        self.bound = dict(old)
        self.bound.update(new)
        try:
            return self.ev(body)
        finally:
            self.bound = old

    def extent(self, N):
        n = self.int(N)
        if n > 130:
            raise Bad()
        return max(0, n)

    def app(self, f, a, x):
        if f == 'never':
            return not self.cond(a[0])
        if f in ('sin', 'cos', 'abs'):
            return getattr(np, f)(self.num(a[0]))
        if f == 'sqrt':
            v = self.num(a[0])
            if np.any(np.asarray(v) < 0):
                raise Bad()
            return np.sqrt(v)
        if f in ('mod', 'floordiv'):
            p, q = self.num(a[0]), self.num(a[1])
            if np.any(np.asarray(q) == 0):
                raise Bad()
            fl = np.floor(p / np.asarray(q) + 1e-12)
            return fl if f == 'floordiv' else p - q * fl
        if f == 'int' and len(a) == 1:
            v = self.num(a[0])
            return np.trunc(v + 1e-12 * np.sign(v))
        if f in ('max2', 'min2') and len(a) == 2:
            return (np.maximum if f == 'max2' else np.minimum)(self.num(a[0]), self.num(a[1]))
        if f == 'pow' and len(a) == 2:
            p, q = self.num(a[0]), self.num(a[1])
            if np.any(np.asarray(p) <= 0):
                raise Bad()
            return np.power(p, q)
        if f == 'fmt' and len(a) == 2:
            return self.text(a[0], self.ev(a[1]))
        if f == 'concat':
            return ''.join(self.text(y, '') for y in a)
        if f == 'repeat' and len(a) == 2 and isinstance(self.ev(a[0]), str):
            return self.ev(a[0]) * self.int(a[1])
        if f in ('put', 'opened'):
            return (f,) + tuple(self.ev(y) for y in a)
        if f in ('str:zfill', 'str:rjust', 'str:ljust', 'str:center') and len(a) >= 2:
            return getattr(self.text(a[0], ''), f[4:])(self.int(a[1]), *[self.ev(y) for y in a[2:]])
        if f in ('str:strip', 'str:upper', 'str:lower') and len(a) == 1:
            return getattr(self.text(a[0], ''), f[4:])()
        if f == 'str:join' and len(a) == 2:
            v = self.ev(a[1])
            if isinstance(v, (list, tuple)) and all(isinstance(y, str) for y in v):
                return self.text(a[0], '').join(v)
            raise Bad()
        if f == 'tuple':
            return tuple(self.ev(y) for y in a)
        if f == 'list':
            return [self.ev(y) for y in a]
        if f == 'array':
            vs = [self.num(y) for y in a]
            return np.array(vs, dtype=float)
        if f in ('sel', 'isel') and len(a) == 2:
            if a[0].op == 'app' and a[0].args[0] == 'shape':
                v = self.ev(a[0])
                return float(v[self.int(a[1])])
            return self.take(self.ev(a[0]), self.index(a[1]))
        if f == 'mask' and len(a) == 2:
            m = self.cond(a[1])
            if not arrayish(m):
                raise Bad()
            self.mixed(a[1], m)
            return self.take(np.asarray(self.ev(a[0])), m)
        if f == 'upd' and len(a) == 3:
            o = self.ev(a[0])
            i = self.index(a[1])
            v = self.num(a[2])
            if isinstance(o, (tuple, list)):
                if isinstance(i, int):
                    o = list(o)
                    o[i] = v
                    return o
                o = np.array(o, dtype=float)
            if not isinstance(o, np.ndarray):
                raise Bad()
            o = np.array(o, dtype=float)
            o[i] = v
            return o
        if f in ('shape',):
            return tuple(float(s) for s in self.arr(a[0]).shape)
        if f == 'len':
            v = self.ev(a[0])
            if isinstance(v, (tuple, list, str)):
                return float(len(v))
            v = np.asarray(v)
            if not v.ndim:
                raise Bad()
            return float(v.shape[0])
        if f == 'size':
            return float(self.arr(a[0]).size)
        if f == 'dim':
            return float(self.arr(a[0]).ndim)
        if f in ('zeros', 'ones', 'full', 'empty', 'uninit'):
            sh = self.ev(a[0])
            sh = tuple(int(s) for s in sh) if isinstance(sh, (tuple, list)) else (self.int(a[0]),)
            if any(s < 0 for s in sh):
                raise Bad()
            if f == 'full':
                return np.full(sh, self.num(a[1]), dtype=float)
            if f in ('empty', 'uninit'):
                return self.array(sh, False, 'uninit') + 1000.0
            return np.zeros(sh) if f == 'zeros' else np.ones(sh)
        if f == 'T':
            return self.arr(a[0]).T
        if f == 'reshape':
            sh = self.ev(a[1])
            sh = tuple(int(round(float(s))) for s in sh) if isinstance(sh, (tuple, list)) else self.int(a[1])
            kw = self.kws(a[2:])
            return self.arr(a[0]).reshape(sh, **kw)
        if f == 'arange':
            vs = [self.num(y) for y in a if not self.iskw(y)]
            r = np.arange(*vs, dtype=float)
            if r.size > 300:
                raise Bad()
            return r
        if f == 'linspace':
            vs = [self.num(y) for y in a if not self.iskw(y)]
            kw = self.kws(a)
            if 'num' in kw:
                kw['num'] = int(kw['num'])
            if len(vs) > 2:
                vs[2] = int(vs[2])
            return np.linspace(*vs, **kw)
        if f == 'any':
            v = self.cond(a[0])
            kw = self.kws(a[1:])
            r = np.any(v, **kw)
            return r if arrayish(r) else bool(r)
        if f in REDUCE:
            v = self.ev(a[0])
            if isinstance(v, (tuple, list)):
                v = np.array(v, dtype=float)
            if not arrayish(v):
                if f in ('sum', 'max', 'min', 'mean') and len(a) == 1 and not isinstance(v, str) and v is not None:
                    raise Bad()
                raise Bad()
            kw = self.kws(a[1:])
            if v.size == 0 and f not in ('sum', 'cumsum', 'prod'):
                raise Bad()
            self.mixed(a[0], v)
            return self.plain(getattr(np, f)(v if f in ('argmax', 'argmin') else v.astype(float), **kw))
        if f == 'where' and len(a) == 1:
            return tuple(v.astype(float) for v in np.where(self.cond(a[0])))
        if f == 'round':
            v = [self.num(y) for y in a]
            return np.round(v[0], *[int(z) for z in v[1:]])
        if f in ('astype', 'dtype'):
            raise Unsupported(f)
        if f == 'matmul' and len(a) == 2:
            return self.plain(np.matmul(self.num(a[0]), self.num(a[1])))
        if f == 'hasattr' and a[1].op == 'const' and a[1].args[1] in ('__iter__', '__len__', '__getitem__'):
            v = self.ev(a[0])
            return arrayish(v) or isinstance(v, (tuple, list, str))
        if f == 'mut:sort' and len(a) == 1:
            return np.sort(self.num(a[0]))
        if f == 'append' and len(a) == 2:
            v = self.ev(a[0])
            return list(v) + [self.ev(a[1])]
        if f == 'listcat':
            return list(self.ev(a[0])) + list(self.ev(a[1]))
        if f == 'slice':
            return self.index(x)
        if f in LOOPS:
            return self.loop(f, a)
        if f in ('axis',) or self.iskw(x):
            return ('kw', f, self.ev(a[0]))
        g = f[3:] if f.startswith('np:') else None
        if f in NUMPY or g in NPFUN or g in NUMPY:
            fn = np
            for part in (g or f).split('.'):
                fn = getattr(fn, part, None)
            if fn is None:
                raise Unsupported(f)
            vs = []
            for y in a:
                if not self.iskw(y):
                    v = self.ev(y)
                    if t.is_int(y) and isinstance(v, float):
                        v = int(round(v))
                    vs.append(v)
            return self.plain(fn(*vs, **self.kws(a)))
        if f.startswith('m:') and f[2:] in METH:
            v = self.arr(a[0])
            vs = [self.as_index(self.ev(y)) for y in a[1:] if not self.iskw(y)]
            return self.plain(getattr(v, f[2:])(*vs, **self.kws(a[1:])))
        if f in ('concat', 'fmt', 'percent', 'dict'):
            return (f,) + tuple(self.ev(y) for y in a)
        return self.uninterpreted(f, a)

    def plain(self, r):
        if isinstance(r, (tuple, list)):
            return tuple(self.plain(z) for z in r)
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                raise Bad()
            return r if r.dtype == bool else r.astype(float)
        if isinstance(r, (bool, np.bool_)):
            return bool(r)
        return float(r)

    def mixed(self, x, m):
        """both outcomes inside one array."""
        if m.dtype == bool:
            s = self.seen.setdefault(('mixed', x), {0})
            if m.any() and not m.all():
                s.add(1)

    def iskw(self, y):
        return y.op == 'app' and (str(y.args[0]).startswith('kw:') or y.args[0] == 'axis')

    def kws(self, a):
        out = {}
        for y in a:
            if self.iskw(y):
                k = 'axis' if y.args[0] == 'axis' else y.args[0][3:]
                v = self.ev(y.args[1])
                if isinstance(v, float) and v == int(v):
                    v = int(v)
                if k in ('dtype',):
                    continue
                out[k] = v
        return out

    def uninterpreted(self, f, a):
        self.opaque.add(f)
        vals = [self.ev(y) if isinstance(y, T) else repr(y) for y in a]
        ms = tuple(mark(v) for v in vals)
        if f in t.BOOL_FUNS:
            return bool(_h(self.seed, f, ms) & 1)
        big = None
        for v in vals:
            if arrayish(v) and (big is None or v.size > big.size):
                big = v
        if big is not None and f.startswith(('ext:', 'np:', 'out:')):
            return self.array(big.shape, False, f, ms)
        return self.integer(f, ms) if f in t.INT_FUNS else self.scalar(f, ms)

    def text(self, x, spec):
        v = self.ev(x)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        if isinstance(v, (np.floating, float)) and not isinstance(v, bool):
            v = float(v)
            if v == int(v) and not spec.endswith(('E', 'e', 'f', 'g', 'G', 'F')):
                v = int(v)
        elif not isinstance(v, (str, bool, int)) and v is not None:
            raise Bad()
        try:
            return format(v, spec)
        except ValueError:
            try:
                format(0 if not isinstance(v, str) else '', spec)
            except ValueError:
                return '<%r:%s>' % (v, spec)        # no such format
            raise

    def loop(self, f, a):
        if f == 'sfold':
            var, N, inits, nexts = a
            n = self.extent(N)
            nm = str(var.args[0])[2:]
            cur = [self.ev(y) for y in inits.args[1:]]
            for k in range(n):
                self.tick()
                fx = {var: float(k)}
                for i, c in enumerate(cur):
                    for b in (True, False):
                        fx[t.sym('$st%s_%d' % (nm, i), b)] = c
                cur = [self.with_(fx, y) for y in nexts.args[1:]]
            return cur[0]
        if f == 'fold':
            var, acc, init, body, N = a
            cur = self.ev(init)
            for k in range(self.extent(N)):
                self.tick()
                cur = self.with_({var: float(k), acc: cur}, body)
            return cur
        var = a[0]
        N = a[-1]
        out = []
        for k in range(self.extent(N)):
            self.tick()
            if f == 'mapif':
                c = self.with_({var: float(k)}, a[2])
                self.seen.setdefault(a[2], set()).add(bool(c))
                if not c:
                    continue
            out.append(self.with_({var: float(k)}, a[1] if f != 'amap' else a[2]))
        if f == 'bigcat':
            if not all(isinstance(v, str) for v in out):
                raise Bad()
            return ''.join(out)
        if f == 'bigsum':
            s = 0.0
            for v in out:
                if isinstance(v, (bool, np.bool_)):
                    v = float(v)
                s = s + v
            return s
        if f == 'amap':
            v = self.ev(a[1])
            v = np.array(v, dtype=float)
            for k, y in enumerate(out):
                v[k] = y
            return v
        try:
            return np.array(out, dtype=float)
        except (ValueError, TypeError):
            return out


def same(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)):
            return True
        if len(x) != len(y):
            return False
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return x is y or isinstance(x, str) and x == y
    try:
        p, q = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    except (ValueError, TypeError):
        return False
    if p.shape != q.shape:
        return False
    if p.size == 0:
        return True
    return bool(np.all(np.abs(p - q) <= 1e-6 * np.maximum(1.0, np.maximum(np.abs(p), np.abs(q)))))


ERR = (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError, IndexError, KeyError, FloatingPointError,
       AttributeError, MemoryError)


def facts(xs):
    nn, strs, ints, cells = set(), {}, set(), set()
    import compare
    names = set()
    for x in xs:
        names |= compare.extents(x)
        for y in [y for y in compare.int_arrays(x) if y.op == 'sym']:
            cells.add(y)
        for s in t.subterms(x):
            if s.op == 'isnone' and s.args[0].op == 'sym':
                nn.add(s.args[0])
            elif s.op == 'same':
                p, q = s.args
                if q.op == 'sym':
                    p, q = q, p
                if p.op == 'sym' and q.op == 'const':
                    if isinstance(q.args[1], str):
                        strs.setdefault(p, set()).add(q.args[1])
                    elif q.args[1] is None:
                        nn.add(p)
            elif s.op == 'app' and s.args[0] in ('slice',):
                for y in s.args[1:]:
                    ints |= {z for z in t.syms(y)}
            elif s.op == 'app' and s.args[0] in ('sel', 'isel', 'upd'):
                i = s.args[2]
                for y in (i.args[1:] if i.op == 'app' and i.args[0] == 'tuple' else (i,)):
                    if y.op in ('sym', 'poly'):
                        ints |= {z for z in t.syms(y)}
            elif s.op == 'app' and s.args[0] in ('zeros', 'ones', 'full', 'arange') and len(s.args) > 1:
                ints |= {z for z in t.syms(s.args[1])}
    for x in xs:
        for y in t.syms(x):
            if str(y.args[0]) in names:
                ints.add(y)
    return nn, strs, ints, cells


def comparisons(x):
    return {s for s in t.subterms(x) if s.op in ('lt0', 'le0')}


def covered(seen, edges, private):
    """every decision was met both ways, every comparison only one side makes also at its boundary."""
    if any(len(s) < 2 for s in seen.values()):
        return False
    return all(edges.get(c, 3) >= 3 for c in private)


def own(a, b):
    """the smallest parts of a that b does not have."""
    x = t.subterms(a) - t.subterms(b)
    return {y for y in x if not any(z in x for z in t.subterms(tuple(y.args)))} if len(x) < 4000 else x


def largest(xs):
    """the largest constant position (index or slice bound) beyond the usual extents."""
    m = 0
    for x in t.subterms(tuple(xs)):
        if x.op == 'app' and x.args[0] in ('sel', 'slice', 'upd'):
            for y in x.args[2:3] if x.args[0] != 'slice' else x.args[1:3]:
                if isinstance(y, t.T) and t.is_num(y) and 8 < t.numval(y) <= 200:
                    m = max(m, int(t.numval(y)))
    return m


def extents_of(xs, assume):
    """arrays whose length an assumption fixes, or that are given another shape."""
    out = {}
    def put(x, n):
        if x.op == 'sym' and x not in t.syms(n) and x not in out:
            out[x] = n
    def conj(c):
        if c.op == 'and':
            for y in c.args:
                conj(y)
        elif c.op == 'eq0':
            for cf, m in t._monos(c.args[0]):
                if len(m) == 1 and m[0][1] == 1 and abs(cf) == 1:
                    y = m[0][0]
                    if y.op == 'app' and y.args[0] in ('len', 'size'):
                        put(y.args[1], t.scale(t.sub(c.args[0], t.scale(y, cf)), -cf))
    for c in assume:
        conj(c)
    for s in t.subterms(tuple(xs)):
        if s.op == 'app' and s.args[0] == 'reshape' and s.args[2].op == 'app' and s.args[2].args[0] == 'tuple':
            ns = s.args[2].args[1:]
            if not any(t.is_num(n) and t.numval(n) < 0 for n in ns):
                p = t.ONE
                for n in ns:
                    p = t.mul(p, n)
                put(s.args[1], p)
    return out


def agree(a, b, assume=(), cap=6.0):
    """(True | False | None, uninterpreted operators met): do the expressions agree on every small array instance?"""
    if np is None:
        return None, set()
    xs = [a, b] + list(assume)
    need = ranks(xs)
    fc = facts(xs)
    Instance.big = largest(xs)
    Instance.sized = extents_of(xs, assume)
    Instance.texts = tuple(sorted({y.args[1] for x in t.subterms(tuple(xs)) if x.op == 'same' for y in x.args
                                   if y.op == 'const' and isinstance(y.args[1], str)}))
    opaque, seen, edges = set(), {}, {}
    boolish = t._is_boolish(a) and t._is_boolish(b)
    ca, cb = comparisons(a), comparisons(b)
    private = (ca - cb) | (cb - ca)
    parts = [x for x in (own(a, b), own(b, a)) if x]
    ok = bad = 0
    hit = set()
    yes = [0, 0]
    t0 = time.time()
    old = np.seterr(all='raise', under='ignore')
    try:
        for i in range(4000):
            if time.time() - t0 > cap:
                break
            v = Instance(_h('dense', i), need, fc, opaque, seen)
            v.edges = edges
            try:
                if any(not np.all(v.cond(c)) for c in assume):
                    continue
                x, y = v.ev(a), v.ev(b)
            except Unsupported:
                return None, opaque
            except RecursionError:
                return None, opaque
            except ERR:
                continue
            if same(x, y):
                ok += 1
                hit |= {j for j, z in enumerate(parts) if z & v.met}
                if boolish:
                    yes[bool(np.all(x))] += 1
            else:
                bad += 1
                if bad >= 3:
                    return False, opaque
            if ok >= 300 and not bad and (not boolish or min(yes) >= 40) and len(hit) == len(parts) and covered(seen, edges, private):
                return True, opaque
    finally:
        np.seterr(**old)
    if bad:
        return (False if bad >= 2 else None), opaque
    if boolish and ok >= 40 and min(yes) < 4:
        return 'quiet', opaque      # no instance tells them apart, one of the outcomes is never met
    if ok < 40 or boolish and min(yes) < 8:
        return None, opaque
    if len(hit) < len(parts):
        return None, opaque         # what tells them apart never came into play
    return (True if covered(seen, edges, private) else None), opaque
