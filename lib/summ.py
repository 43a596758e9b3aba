"""behaviour summary of a function: result, final state of what it was given, raises, outgoing calls."""
import ast
import terms as t
from terms import T, app, sym, const
from engine import Engine, V, State, Env
from pyfront import AnalysisError


def rethrown(e):
    """raised because a callback raised or memory ran out."""
    return any(x.op == 'raises' and x.args[0].op == 'app' and x.args[0].args[0] in ('callv', 'c:new') for x in e.pc)


class Summary:
    def __init__(self):
        self.ret = None
        self.retv = None
        self.params = {}
        self.attrs = {}
        self.raises = {}      # exception -> list of (cond, event)
        self.calls = []
        self.trace = []
        self.eng = None
        self.st = None
        self.dead = False

    def closed_cond(self, name=None):
        cs = []
        for n, l in self.raises.items():
            if name is None or n == name:
                for c, e in l:
                    if rethrown(e):
                        continue
                    cs.append(closed(self.eng, t.and_(*e.pc) if e.pc else t.TRUE))
        return t.or_(*cs) if cs else t.FALSE

    def raise_cond(self, name=None):
        cs = []
        for n, l in self.raises.items():
            if name is None or n == name:
                cs += [c for c, e in l if not rethrown(e)]
        return t.or_(*cs) if cs else t.FALSE


def flat_attrs(v, path, out, seen, depth=0):
    if v is None or id(v) in seen or depth > 4:
        return
    seen.add(id(v))
    if v.kind == 'obj' and v.attrs is not None:
        for a, x in v.attrs.items():
            p = path + '.' + a if isinstance(a, str) else path + '[' + t.show(a) + ']'
            if x.kind == 'obj':
                flat_attrs(x, p, out, seen, depth + 1)
                continue
            if x.kind in ('term', 'seq', 'dict'):
                out[p] = x
                if x.kind == 'term' and x.attrs:
                    flat_attrs(x, p, out, seen, depth + 1)
    elif v.kind == 'term' and v.attrs:
        for a, x in v.attrs.items():
            p = path + '.' + str(a)
            if x.kind == 'obj':
                flat_attrs(x, p, out, seen, depth + 1)
                continue
            out[p] = x
            if x.kind == 'term' and x.attrs:
                flat_attrs(x, p, out, seen, depth + 1)


def output(x, memo=None):
    """normal form of written output: consecutive texts for one file joined, loops that write become joined texts."""
    from extmodels import str_concat
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    r = x
    if x.op == 'ite':
        c, a, b = x.args[0], output(x.args[1], memo), output(x.args[2], memo)
        r = t.ite(c, a, b)
        if a is not b and is_put(a) and is_put(b) and a.args[2] is b.args[2] and a.args[1] is b.args[1]:
            r = app('put', a.args[1], a.args[2], t.ite(c, a.args[3], b.args[3]))
        elif a is not b and is_put(b) and b.args[1] is a:
            r = app('put', a, b.args[2], t.ite(c, const(''), b.args[3]))
        elif a is not b and is_put(a) and a.args[1] is b:
            r = app('put', b, a.args[2], t.ite(c, a.args[3], const('')))
    elif x.op == 'app' and x.args[0] == 'put':
        l = output(x.args[1], memo)
        r = app('put', l, x.args[2], x.args[3])
        if is_put(l) and l.args[2] is x.args[2]:
            r = app('put', l.args[1], l.args[2], str_concat([l.args[3], x.args[3]]))
        if r.args[3] is const(''):
            r = r.args[1]
    elif x.op == 'app' and x.args[0] == 'opened':
        r = app('opened', output(x.args[1], memo), *x.args[2:])
    elif x.op == 'app' and x.args[0] == 'fold':
        _, k, acc, init, body, n = x.args
        b = output(body, {})
        init = output(init, memo)
        r = app('fold', k, acc, init, b, n) if b is not acc else init
        if is_put(b) and b.args[1] is acc and not {k, acc} & set(t.syms(b.args[2])) and acc not in t.syms(b.args[3]):
            r = output(app('put', init, b.args[2], app('bigcat', k, b.args[3], n)), memo)
    memo[x] = r
    return r


def is_put(x):
    return x.op == 'app' and x.args[0] == 'put'


def summarize(idx, fnode, args=None, self_v=None, cls=None, models=None, opaque=(), eng=None, **kw):
    eng = eng or Engine(idx, models=models, opaque=opaque, **kw)
    st = State()
    st.frames = [Env(None, fnode.mod)]
    a = fnode.args
    cls = cls or getattr(fnode, 'cls', None)
    names = list(a.posonlyargs + a.args)
    deco = getattr(fnode, 'deco', [])
    full = dict(args or {})
    bound = False
    if cls is not None and 'staticmethod' not in deco and names:
        first = names[0]
        names = names[1:]
        if self_v is None and 'classmethod' not in deco:
            self_v = eng.new_obj(cls, 'self')
        bound = self_v is not None
    for p in names + a.kwonlyargs:
        if p.arg not in full:
            full[p.arg] = eng.param(p.arg, p.annotation, fnode.mod)
        elif not isinstance(full[p.arg], V):
            full[p.arg] = V(full[p.arg], tag=p.arg)
    for n, v in full.items():
        st.extra[('in', n)] = v
    if bound:
        st.extra[('in', 'self')] = self_v
    st.extra['$log'] = V(const('no calls'), tag='$log')
    st.extra['$out'] = V(const('no output'), tag='$out')
    s = Summary()
    s.eng = eng
    r_st, v = eng.run(fnode, full, self_v=self_v, cls=cls, st=st)
    s.trace = eng.trace
    if r_st is None:
        s.dead = True
    else:
        s.st = st
        s.retv = v
        s.ret = deep_term(eng, v)
        s.log = st.extra['$log'].term
        s.out = output(st.extra['$out'].term)
        for n in full:
            x = st.extra.get(('in', n))
            if x is not None:
                s.params[n] = deep_term(eng, x)
                o = {}
                flat_attrs(x, n, o, set())
                for k, y in o.items():
                    s.attrs[k] = deep_term(eng, y)
        x = st.extra.get(('in', 'self'))
        if x is not None:
            o = {}
            flat_attrs(x, 'self', o, set())
            for k, y in o.items():
                s.attrs[k] = deep_term(eng, y)
    for e in eng.trace:
        if e.kind == 'raise' and not e.data.get('caught'):
            s.raises.setdefault(e.name, []).append((canon_pc(e), e))
        elif e.kind in ('call', 'callv'):
            s.calls.append(e)
    return s


def deep_term(eng, v):
    if v is None:
        return t.NONE
    if v.kind == 'obj' and v.attrs and '$base' in v.attrs:
        from parts import snapshot
        return snapshot(eng, v)
    if v.kind == 'obj' and v.attrs and not (v.data or {}).get('lazy', True):
        items = []
        for a in sorted(v.attrs, key=str):
            items.append(app('field:' + str(a), deep_term(eng, v.attrs[a])))
        return app('object:' + (v.cls.name if v.cls is not None else '?'), *items)
    if v.kind == 'dict':
        return app('dict', *[app('item', k if isinstance(k, T) else const(k), deep_term(eng, x))
                             for k, x in sorted(v.attrs.items(), key=lambda kv: str(kv[0]))])
    if v.kind == 'seq':
        return app(v.data or 'tuple', *[deep_term(eng, x) for x in v.elems])
    return eng.vterm(v)


def loop_names(e):
    m = {}
    for i, L in enumerate(e.loops):
        m[L.k] = sym('$L%d' % i, True)
        for mu in L.mu:
            m[mu] = sym('$M%d_%s' % (i, L.colour.get(mu, '?')), bool(mu.args[1]))
    return m


def closed(eng, c):
    """condition over loop iterations in closed form: loop-carried values at iteration k as recurrences of extent k."""
    import copy
    for _ in range(24):
        ss = t.syms(c)
        Ls = [L for L in eng.all_loops if any(m in ss for m in L.mu)]
        if not Ls:
            break
        L = Ls[-1]
        LL = copy.copy(L)
        LL.N = L.k
        LL.breaks = False
        c = t.subst(c, {mu: eng.fold(L.mu[mu][0], mu, L.mu[mu][1], L.k, LL, 0, None) for mu in L.mu if mu in ss})
    ss = t.syms(c)
    m = {L.k: sym('$L%s' % str(L.k.args[0])[1:], True) for L in eng.all_loops if L.k in ss}
    return t.subst(c, m) if m else c


def canon_pc(e):
    m = loop_names(e)
    c = t.and_(*e.pc) if e.pc else t.TRUE
    return t.subst(c, m) if m else c


def canon(e, x):
    m = loop_names(e)
    return t.subst(x, m) if m and isinstance(x, T) else x
