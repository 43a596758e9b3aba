"""Extracted loops written out: recurrences, element-wise maps and sums whose extent is a number become explicit terms."""
import terms as t
from terms import app, num, T


class TooBig(Exception):
    pass


class Unfold:
    def __init__(self, rewrite=None, limit=200000):
        self.memo = {}
        self.rewrite = rewrite
        self.left = limit

    def __call__(self, x):
        if not isinstance(x, T) or x.op in ('sym', 'const'):
            return x
        r = self.memo.get(x)
        if r is None:
            self.left -= 1
            if self.left < 0:
                raise TooBig('term')
            r = self.memo[x] = self.go(x)
        return r

    def extent(self, N):
        n = self(N)
        if t.is_num(n):
            v = t.numval(n)
            if v.denominator == 1 and v <= 40:
                return max(int(v), 0)
        return None

    def go(self, x):
        if x.op == 'app':
            f, a = x.args[0], x.args[1:]
            if f == 'sfold':
                n = self.extent(a[1])
                if n is not None:
                    kk, init, body = a[0], a[2], a[3]
                    st = [self(y) for y in init.args[1:]]
                    nm = str(kk.args[0])[2:]
                    names = {}
                    for s in t.syms(body):
                        w = str(s.args[0])
                        if w.startswith('$st%s_' % nm):
                            names[s] = int(w.rsplit('_', 1)[1])
                    for k in range(n):
                        m = {s: st[i] for s, i in names.items()}
                        m[kk] = num(k)
                        st = [self(t.subst(y, m)) for y in body.args[1:]]
                    return st[0]
            if f == 'fold':
                n = self.extent(a[4])
                if n is not None:
                    cur = self(a[2])
                    for k in range(n):
                        cur = self(t.subst(a[3], {a[0]: num(k), a[1]: cur}))
                    return cur
            if f == 'bigsum':
                n = self.extent(a[2])
                if n is not None:
                    return t.add(*[self(t.subst(a[1], {a[0]: num(k)})) for k in range(n)]) if n else t.ZERO
            if f == 'amap':
                n = self.extent(a[3])
                if n is not None:
                    b = self(a[1])
                    out = b
                    for k in range(n):
                        v = self(t.subst(a[2], {a[0]: num(k)}))
                        out = self.upd(out, num(k), v)
                    return out
            if f == 'map':
                n = self.extent(a[2])
                if n is not None:
                    return app('array', *[self(t.subst(a[1], {a[0]: num(k)})) for k in range(n)])
            if f == 'upd':
                return self.upd(self(a[0]), self(a[1]), self(a[2]))
            if f == 'ite':
                pass
        if x.op == 'ite':
            c = self(x.args[0])
            if c is t.TRUE:
                return self(x.args[1])
            if c is t.FALSE:
                return self(x.args[2])
        y = t.rebuild(x, self)
        if self.rewrite is not None:
            z = self.rewrite(y)
            if z is not None:
                return self(z) if z is not y else y
        return y

    def upd(self, b, i, v):
        """later writes of the same cell replace earlier ones."""
        chain = []
        c = b
        while c.op == 'app' and c.args[0] == 'upd' and t.is_num(c.args[2]) and t.is_num(i):
            if c.args[2] is i:
                c = c.args[1]
                for j, w in reversed(chain):
                    c = app('upd', c, j, w)
                return app('upd', c, i, v)
            chain.append((c.args[2], c.args[3]))
            c = c.args[1]
        if b.op == 'app' and b.args[0] == 'array' and t.is_num(i) and 0 <= t.numval(i) < len(b.args) - 1:
            l = list(b.args)
            l[1 + int(t.numval(i))] = v
            return app(*l)
        return app('upd', b, i, v)
