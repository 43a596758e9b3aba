"""Finite-state abstract interpreter for configuration code.

The interpreted program is the syntax tree of the package; external modules are uninterpreted names (`Ext`), their calls
uninterpreted terms (`App`), their namespaces a small model with one representative name of every kind.  A condition that
depends on anything uninterpreted splits the state.  Nothing of the package is imported or executed.
"""
import ast
import copy
import os
from pyfront import AnalysisError

MAXSTEPS = 200000


class Ext:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('Ext', self.name))

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self


class App:
    """result of an uninterpreted call"""

    def __init__(self, fn, args=(), kw=()):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw, key=lambda x: str(x[0])))

    def __eq__(self, o):
        return isinstance(o, App) and repr(o) == repr(self)

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return '%s(%s)' % (self.fn, ', '.join([repr(a) for a in self.args] + ['%s=%r' % k for k in self.kw]))

    def __deepcopy__(self, memo):
        return self


UNK = App('?')


class Func:
    def __init__(self, node, mod, cls=None, env=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'function %s.%s' % (self.mod.name, getattr(self.node, 'name', 'lambda'))

    def __deepcopy__(self, memo):
        return self


class Bound:
    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv

    def __repr__(self):
        return 'method %r of %r' % (self.fn, self.recv)

    def __deepcopy__(self, memo):
        return Bound(self.fn, self.recv)


class Cls:
    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, Cls) and o.info is self.info

    def __hash__(self):
        return hash(id(self.info))

    def __repr__(self):
        return 'class ' + self.info.qual

    def __deepcopy__(self, memo):
        return self


class Mod:
    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return hash(id(self.m))

    def __repr__(self):
        return 'module ' + self.m.name

    def __deepcopy__(self, memo):
        return self


class Ref:
    """heap object: instance, dict or list"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ref) and o.n == self.n

    def __hash__(self):
        return hash(('Ref', self.n))

    def __repr__(self):
        return '#%d' % self.n

    def __deepcopy__(self, memo):
        return self


class State:
    def __init__(self):
        self.heap = {}
        self.globs = {}       # module name -> {name: value}
        self.cattr = {}       # class -> {name: value}
        self.loaded = set()
        self.events = []
        self.n = 0

    def new(self, kind, val):
        self.n += 1
        self.heap[self.n] = [kind, val]
        return Ref(self.n)

    def fork(self):
        return copy.deepcopy(self)


class Return(Exception):
    pass


class Raised(Exception):
    def __init__(self, what):
        self.what = what


class Split(Exception):
    pass


class Machine:
    """interprets one call at a time; a decision list drives the outcome of uninterpreted conditions, so that a call is
    re-interpreted once per combination of outcomes."""

    def __init__(self, idx, run_modules, names=None, callable_=None, falsy=(), truthy=()):
        self.idx = idx
        self.run_modules = run_modules
        self.names = names or {}
        self.callable_ = callable_ or (lambda name: True)
        self.visited = set()
        self.steps = 0
        self.falsy, self.truthy = falsy, truthy

    # ------------------------------------------------------------ driving
    def outcomes(self, st, fn, args=(), kw=None):
        """all (state, value | None, exception name | None) of calling fn in st."""
        todo, out = [[]], []
        while todo:
            dec = todo.pop()
            s = st.fork()
            self.st, self.dec, self.pos, self.memo = s, dec, 0, {}
            self.depth = 0
            try:
                v = self.call(fn, list(args), dict(kw or {}))
                out.append((s, v, None))
            except Raised as e:
                out.append((s, None, e.what))
            except Split:
                todo.append(dec + [True])
                todo.append(dec + [False])
                if len(todo) + len(out) > 400:
                    raise AnalysisError('too many outcomes')
        return out

    def decide(self, v):
        r = repr(v)
        if r in self.memo:
            return self.memo[r]
        for x in self.truthy:
            if x in r:
                return True
        for x in self.falsy:
            if x in r:
                return False
        if self.pos >= len(self.dec):
            raise Split()
        d = self.dec[self.pos]
        self.pos += 1
        self.memo[r] = d
        return d

    def truth(self, v):
        if isinstance(v, (App,)):
            return self.decide(v)
        if isinstance(v, Ref):
            k, x = self.st.heap[v.n]
            return bool(x) if k in ('dict', 'list') else True
        if isinstance(v, (Ext, Func, Cls, Mod, Bound)):
            return True
        return bool(v)

    # ------------------------------------------------------------ modules
    def load(self, m):
        if m.name in self.st.loaded:
            return
        self.st.loaded.add(m.name)
        g = self.st.globs.setdefault(m.name, {})
        if m.name in self.run_modules:
            self.block(m.tree.body, {'__module__': m, '__globals__': g})

    def module_get(self, m, name):
        g = self.st.globs.setdefault(m.name, {})
        if name in g:
            return g[name]
        if name == '__file__':
            return m.path
        if name == '__name__':
            return m.name
        if m.name in self.run_modules and m.name in self.st.loaded and name not in m.names:
            sub = self.idx.modules.get(m.name + '.' + name)
            return Mod(sub) if sub else None
        r = self.idx.module_attr(m, name)
        return self.entity(r, m, name)

    def entity(self, r, m=None, name=None):
        if r[0] == 'func':
            return Func(r[1], r[1].mod)
        if r[0] == 'class':
            return Cls(r[1])
        if r[0] == 'mod':
            self.load(r[1])
            return Mod(r[1])
        if r[0] == 'ext':
            if m is not None and r[1] == m.name + '.' + name:
                return None
            return Ext(r[1])
        if r[0] == 'assign':
            m2 = r[2]
            for n, v in self.st.globs.setdefault(m2.name, {}).items():
                if n == name:
                    return v
            if m2.name in self.run_modules:
                self.load(m2)
                if name in self.st.globs[m2.name]:
                    return self.st.globs[m2.name][name]
            return self.expr(r[1], {'__module__': m2, '__globals__': self.st.globs[m2.name]})
        return UNK

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisError('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('statement %s is not interpreted' % type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        self.expr(s.value, env)

    def s_Pass(self, s, env):
        pass

    s_Assert = s_Pass

    def s_Global(self, s, env):
        env.setdefault('__global__', set()).update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            full = a.name if a.asname else a.name.split('.')[0]
            m = self.idx.modules.get(full)
            self.store(a.asname or full, self._mod(m) if m else Ext(full), env)

    def _mod(self, m):
        self.load(m)
        return Mod(m)

    def s_ImportFrom(self, s, env):
        base = env['__module__']._abs(s.level, s.module) if s.level else s.module
        m = self.idx.modules.get(base)
        for a in s.names:
            if a.name == '*':
                continue
            if m is None:
                v = Ext(base + '.' + a.name)
            else:
                self.load(m)
                v = self.module_get(m, a.name)
                if v is None:
                    sub = self.idx.modules.get(base + '.' + a.name)
                    v = self._mod(sub) if sub else Ext(base + '.' + a.name)
            self.store(a.asname or a.name, v, env)

    def s_FunctionDef(self, s, env):
        if not hasattr(s, 'mod'):
            s.mod = env['__module__']
        self.store(s.name, Func(s, env['__module__'], env=env if '__local__' in env else None), env)

    def s_ClassDef(self, s, env):
        r = self.idx.module_attr(env['__module__'], s.name)
        if r[0] != 'class':
            raise AnalysisError('local class')
        self.store(s.name, Cls(r[1]), env)

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        ld = copy.deepcopy(s.target)
        ld.ctx = ast.Load()
        self.assign(s.target, self.binop(s.op, self.expr(ld, env), self.expr(s.value, env)), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.expr(t.slice, env)
            if isinstance(o, Ref) and self.st.heap[o.n][0] in ('dict', 'list', 'globals'):
                self.cells(o)[k] = v
            elif isinstance(o, App):
                self.st.events.append(('setitem', o, k, v))
            else:
                raise AnalysisError('item assignment')
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        else:
            raise AnalysisError('assignment target')

    def cells(self, ref):
        k, x = self.st.heap[ref.n]
        return self.st.globs[x] if k == 'globals' else x

    def store(self, name, v, env):
        if '__local__' not in env or name in env.get('__global__', ()):
            env['__globals__'][name] = v
        else:
            env['__local__'][name] = v

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.expr(t.value, env), self.expr(t.slice, env)
                c = self.cells(o)
                if k not in c:
                    raise Raised('KeyError')
                del c[k]
            elif isinstance(t, ast.Name):
                (env['__local__'] if t.id in env.get('__local__', {}) else env['__globals__']).pop(t.id)
            else:
                raise AnalysisError('del')

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.expr(s.test, env)) else s.orelse, env)

    def s_For(self, s, env):
        for v in list(self.items(self.expr(s.iter, env))):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.expr(s.test, env)):
            n += 1
            if n > 1000:
                raise AnalysisError('loop')
            try:
                self.block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.block(s.orelse, env)

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Break(self, s, env):
        raise _Break()

    def s_Return(self, s, env):
        e = Return()
        e.value = self.expr(s.value, env) if s.value is not None else None
        raise e

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Raised('?')
        x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        raise Raised(ast.unparse(x).split('.')[-1])

    def s_Try(self, s, env):
        # failures of the environment (no CuPy, no compiler) are not modelled: only raises of the package reach handlers
        try:
            try:
                self.block(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(x).split('.')[-1] for x in (
                        h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or e.what in names or 'Exception' in names:
                        if h.name:
                            self.store(h.name, UNK, env)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.expr(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, App('enter', [v]), env)
        self.block(s.body, env)

    # ------------------------------------------------------------ expressions
    def mangle(self, name, env):
        c = env.get('__class__')
        if c is not None and name.startswith('__') and not name.endswith('__'):
            return '_' + c.node.name.lstrip('_') + name
        return name

    def expr(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('expression %s is not interpreted' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.get('__local__', {}) and e.id not in x.get('__global__', ()):
                return x['__local__'][e.id]
            x = x.get('__outer__')
        g = env['__globals__']
        if e.id in g:
            return g[e.id]
        m = env['__module__']
        if e.id in m.names or m.stars or e.id in ('__file__', '__name__'):
            v = self.module_get(m, e.id)
            if v is not None or e.id in m.names:
                return v
        import builtins
        if hasattr(builtins, e.id):
            return Ext('builtins.' + e.id)
        raise Raised('NameError')

    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), self.mangle(e.attr, env))

    def getattr(self, o, a, default=None):
        if isinstance(o, Ext):
            return Ext(o.name + '.' + a)
        if isinstance(o, Mod):
            v = self.module_get(o.m, a)
            if v is None:
                sub = self.idx.modules.get(o.m.name + '.' + a)
                if sub:
                    return self._mod(sub)
                return Ext(o.m.name + '.' + a)
            return v
        if isinstance(o, Cls):
            for c in o.info.mro(self.idx):
                d = self.st.cattr.setdefault(c.qual, None)
                if d is None:
                    d = self.st.cattr[c.qual] = {}
                    env = {'__module__': c.mod, '__globals__': self.st.globs.setdefault(c.mod.name, {}), '__class__': c,
                           '__local__': d}
                    for n, x in c.attrs.items():
                        d[self.mangle(n, env)] = self.expr(x, env)
                if a in d:
                    return d[a]
                for tab in (c.methods,):
                    for n, f in tab.items():
                        if self.mangle(n, {'__class__': c}) == a:
                            deco = [d_.id for d_ in f.decorator_list if isinstance(d_, ast.Name)]
                            fn = Func(f, c.mod, c)
                            return Bound(fn, o) if 'classmethod' in deco else fn
            raise Raised('AttributeError')
        if isinstance(o, Ref):
            k, v = self.st.heap[o.n]
            if k == 'inst':
                if a in v:
                    return v[a]
                f = self.getattr(v['__class__'], a)
                if isinstance(f, Func):
                    deco = [d_.id for d_ in f.node.decorator_list if isinstance(d_, ast.Name)]
                    if 'property' in deco:
                        return self.call(f, [o], {})
                    if 'staticmethod' not in deco:
                        return Bound(f, o)
                return f
            return Bound(a, o)
        if isinstance(o, App):
            return Bound(a, o)
        if isinstance(o, (str, list, tuple)):
            return Bound(a, o)
        if o is None:
            raise Raised('AttributeError')
        raise AnalysisError('attribute %s of %r' % (a, o))

    def setattr(self, o, a, v):
        if isinstance(o, Cls):
            self.getattr_init(o)
            self.st.cattr[o.info.qual][a] = v
        elif isinstance(o, Ref) and self.st.heap[o.n][0] == 'inst':
            self.st.heap[o.n][1][a] = v
        elif isinstance(o, Mod):
            self.st.globs.setdefault(o.m.name, {})[a] = v
        elif isinstance(o, App):
            self.st.events.append(('setattr', o, a, v))
        else:
            raise AnalysisError('attribute assignment')

    def getattr_init(self, o):
        try:
            self.getattr(o, '__nothing__')
        except Raised:
            pass

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = [None if x is None else self.expr(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(o, (str, list, tuple)) and not any(isinstance(x, App) for x in (lo, hi, st)):
                return o[lo:hi:st]
            return App('slice', [o, lo, hi, st])
        k = self.expr(e.slice, env)
        if isinstance(o, Ref) and self.st.heap[o.n][0] != 'inst':
            c = self.cells(o)
            if isinstance(k, App) or k not in c and not isinstance(c, list):
                if isinstance(k, App):
                    return App('item', [o, k])
                raise Raised('KeyError')
            return c[k]
        if isinstance(o, (str, list, tuple)) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise Raised('IndexError')
        return App('item', [o, k])

    def e_Tuple(self, e, env):
        return tuple(self.expr(x, env) for x in e.elts)

    def e_List(self, e, env):
        return self.st.new('list', [self.expr(x, env) for x in e.elts])

    def e_Set(self, e, env):
        return tuple(self.expr(x, env) for x in e.elts)

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.cells(self.expr(v, env)))
            else:
                d[self.expr(k, env)] = self.expr(v, env)
        return self.st.new('dict', d)

    def e_Lambda(self, e, env):
        return Func(e, env['__module__'], env.get('__class__'), env)

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.expr(x, env)
            if self.truth(v) == isinstance(e.op, ast.Or):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else v
        return App(type(e.op).__name__, [v])

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.expr(e.left, env), self.expr(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, (ast.Add, ast.BitOr)):
            x, y = self.cells(a), self.cells(b)
            if isinstance(x, list):
                return self.st.new('list', x + y)
            return self.st.new('dict', {**x, **y})
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
            except TypeError:
                raise Raised('TypeError')
        return App(type(op).__name__, [a, b])

    def e_Compare(self, e, env):
        a = self.expr(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            b = self.expr(r, env)
            v = self.compare(op, a, b)
            if isinstance(v, App):
                v = self.decide(v)
            if not v:
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, App):
                v = self.decide(App('in', [a, b]))
            else:
                v = a in (list(self.items(b)) if not isinstance(b, str) else b)
            return v != isinstance(op, ast.NotIn)
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            if (isinstance(a, App) or isinstance(b, App)) and a is not None and b is not None and a != b:
                v = self.decide(App('eq', [a, b]))
            elif a is None or b is None:
                v = a is b if not (isinstance(a, App) or isinstance(b, App)) else False
            else:
                v = a == b
            return v == isinstance(op, (ast.Is, ast.Eq))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return App(type(op).__name__, [a, b])

    def e_JoinedStr(self, e, env):
        out = ''
        for x in e.values:
            v = x.value if isinstance(x, ast.Constant) else self.expr(x.value, env)
            if not isinstance(v, (str, int, float)):
                return App('format', [e.lineno])
            out += str(v)
        return out

    def comp(self, e, env, emit):
        local = {'__module__': env['__module__'], '__globals__': env['__globals__'], '__class__': env.get('__class__'),
                 '__local__': {}, '__outer__': env if '__local__' in env else None}

        def go(i):
            if i == len(e.generators):
                emit(local)
                return
            g = e.generators[i]
            for v in list(self.items(self.expr(g.iter, local))):
                self.assign(g.target, v, local)
                if all(self.truth(self.expr(c, local)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e, env, lambda l: out.append(self.expr(e.elt, l)))
        return self.st.new('list', out)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, env):
        out = {}
        self.comp(e, env, lambda l: out.__setitem__(self.expr(e.key, l), self.expr(e.value, l)))
        return self.st.new('dict', out)

    def e_Starred(self, e, env):
        return self.expr(e.value, env)

    def e_Call(self, e, env):
        f = self.expr(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.items(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.cells(self.expr(k.value, env)))
            else:
                kw[k.arg] = self.expr(k.value, env)
        if isinstance(f, Ext) and f.name in ('builtins.globals', 'builtins.vars', 'builtins.locals') and not args:
            if f.name != 'builtins.globals':
                raise AnalysisError(f.name)
            return self.st.new('globals', env['__module__'].name)
        if isinstance(f, Ext) and f.name == 'builtins.super':
            raise AnalysisError('super')
        return self.call(f, args, kw)

    def items(self, v):
        if isinstance(v, Ref):
            k, x = self.st.heap[v.n]
            if k in ('dict', 'list', 'globals'):
                return list(self.cells(v))
        if isinstance(v, (list, tuple, str)):
            return list(v)
        if isinstance(v, App) and v.fn == 'range' and all(isinstance(a, int) for a in v.args):
            return list(range(*v.args))
        raise AnalysisError('cannot enumerate %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.steps += 1
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call(f.fn, [f.recv] + args, kw)
            return self.builtin_method(f.recv, f.fn, args, kw)
        if isinstance(f, Func):
            return self.invoke(f, args, kw)
        if isinstance(f, Cls):
            o = self.st.new('inst', {'__class__': f})
            try:
                init = self.getattr(f, '__init__')
            except Raised:
                return o
            self.call(init, [o] + args, kw)
            return o
        if isinstance(f, Ext):
            return self.external(f.name, args, kw)
        if isinstance(f, App):
            r = App('call', [f] + args, kw.items())
            self.st.events.append(('call', r))
            return r
        if f is None:
            raise Raised('TypeError')
        raise AnalysisError('call of %r' % (f,))

    def invoke(self, f, args, kw):
        n = f.node
        self.visited.add('%s.%s' % (f.mod.name, getattr(n, 'name', 'lambda')))
        if self.depth > 40:
            raise AnalysisError('recursion')
        loc = {}
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'__module__': f.mod, '__globals__': self.st.globs.setdefault(f.mod.name, {}), '__class__': f.cls, '__local__': loc}
        if f.env is not None:
            env['__outer__'] = f.env
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            loc[x] = self.expr(d, env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                loc[x.arg] = self.expr(d, env)
        for x, v in zip(names, args):
            loc[x] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise Raised('TypeError')
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                loc[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            loc[a.kwarg.arg] = self.st.new('dict', extra)
        elif extra:
            raise Raised('TypeError')
        if any(x not in loc for x in names):
            raise Raised('TypeError')
        if isinstance(n, ast.Lambda):
            return self.expr(n.body, env)
        self.depth += 1
        try:
            self.block(n.body, env)
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    def builtin_method(self, o, a, args, kw):
        if isinstance(o, Ref):
            k, _ = self.st.heap[o.n]
            c = self.cells(o)
            if isinstance(c, dict):
                if a == 'update':
                    for x in args:
                        if isinstance(x, Ref) and isinstance(self.cells(x), dict):
                            c.update(self.cells(x))
                        else:
                            for p in self.items(x):
                                q, r = self.items(p)
                                c[q] = r
                    c.update(kw)
                    return None
                if a == 'pop':
                    if args[0] in c:
                        return c.pop(args[0])
                    if len(args) > 1:
                        return args[1]
                    raise Raised('KeyError')
                if a == 'keys':
                    return tuple(c)
                if a == 'values':
                    return tuple(c.values())
                if a == 'items':
                    return tuple(c.items())
                if a == 'get':
                    return c.get(args[0], args[1] if len(args) > 1 else None)
                if a == 'setdefault':
                    return c.setdefault(args[0], args[1] if len(args) > 1 else None)
                if a == 'copy':
                    return self.st.new('dict', dict(c))
                if a == 'clear':
                    c.clear()
                    return None
            else:
                if a == 'append':
                    c.append(args[0])
                    return None
                if a == 'extend':
                    c.extend(self.items(args[0]))
                    return None
            raise AnalysisError('method %s of a container' % a)
        if isinstance(o, str):
            if all(isinstance(x, str) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in args) and a in (
                    'startswith', 'endswith', 'lower', 'upper', 'strip', 'replace'):
                return getattr(o, a)(*args)
        r = App('.' + a, [o] + list(args), kw.items())
        self.st.events.append(('call', r))
        return r

    def external(self, name, args, kw):
        b = name[9:] if name.startswith('builtins.') else None
        if b == 'dir' or b == 'vars' and isinstance(args[0], Ext):
            if isinstance(args[0], Ext) and args[0].name in self.names:
                ns = self.names[args[0].name]
                if b == 'vars':
                    return self.st.new('dict', {n: Ext(args[0].name + '.' + n) for n in ns})
                return self.st.new('list', list(ns))
        if b == 'getattr' and isinstance(args[1], str):
            return self.getattr(args[0], args[1])
        if b == 'setattr' and isinstance(args[1], str):
            return self.setattr(args[0], args[1], args[2])
        if b == 'callable':
            if isinstance(args[0], Ext):
                return self.callable_(args[0].name)
            if isinstance(args[0], (Func, Bound, Cls)):
                return True
            if args[0] is None or isinstance(args[0], (str, int, float)):
                return False
        if b == 'bool':
            return self.truth(args[0])
        if b in ('list', 'tuple', 'set', 'sorted', 'frozenset'):
            return self.st.new('list', self.items(args[0]) if args else [])
        if b == 'dict':
            d = {}
            for x in args:
                if isinstance(x, Ref) and isinstance(self.cells(x), dict):
                    d.update(self.cells(x))
                else:
                    for p in self.items(x):
                        q, r = self.items(p)
                        d[q] = r
            d.update(kw)
            return self.st.new('dict', d)
        if b == 'len' and not isinstance(args[0], App):
            return len(self.items(args[0]))
        if b == 'range':
            return App('range', args)
        if b == 'print':
            return None
        if b == 'int' and isinstance(args[0], int):
            return args[0]
        if b == 'hasattr' and isinstance(args[0], Ref):
            try:
                self.getattr(args[0], args[1])
                return True
            except Raised:
                return False
        if name == 'os.path.join' and all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        if name in ('os.path.realpath', 'os.path.abspath', 'os.path.normpath') and isinstance(args[0], str):
            return os.path.normpath(args[0])
        if name == 'os.path.dirname' and isinstance(args[0], str):
            return os.path.dirname(args[0])
        if name == 'importlib.import_module' and isinstance(args[0], str) and len(args) == 1 and args[0] in self.idx.modules:
            return self._mod(self.idx.modules[args[0]])
        r = App(name, args, kw.items())
        self.st.events.append(('call', r))
        return r


class _Continue(Exception):
    pass


class _Break(Exception):
    pass
