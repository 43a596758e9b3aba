"""Which parameters (and attributes) of a function may be modified in place, directly, through views or through what it calls:
a flow-sensitive may-alias analysis over the syntax trees with interprocedural summaries.

The abstract value of an expression is the set of roots whose storage it may share.  A root is ('p', parameter) or
('a', 'self', attribute).  Copies, arithmetic and allocations share nothing."""
import ast
from effects import INPLACE

VIEWS = {'asarray', 'ascontiguousarray', 'asanyarray', 'asfarray', 'asarray_chkfinite', 'reshape', 'ravel', 'squeeze', 'transpose', 'atleast_1d',
         'atleast_2d', 'atleast_3d', 'broadcast_to', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'real', 'imag', 'diagonal', 'split',
         'array_split', 'hsplit', 'vsplit', 'rot90', 'flip', 'fliplr', 'flipud', 'require', 'asfortranarray', 'view', 'T', 'flat', 'nditer'}
MUTATORS = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'shuffle': 0, 'at': 0, 'put_along_axis': 0}
NUMERIC = ('float', 'int', 'str', 'bool', 'complex')
# arguments the compiled functions write
NATIVE = {'kick_and_drift': (0, 1, 2, 3), 'kick': (), 'drift': (), 'kick_up': (1,), 'kick_down': (1,), 'drift_up': (0,), 'drift_down': (0,),
          'back_project': (0,), 'project': (0,)}


class Summary:
    def __init__(self):
        self.mut = {}        # root -> (line, text)
        self.maybe = {}      # root -> (line, text): an augmented assignment to what may be a number
        self.ret = frozenset()
        self.retain = {}     # attribute -> roots stored into self.attribute


def scalar(ann):
    if ann is None:
        return False
    s = ast.unparse(ann).strip('\'"')
    return s in NUMERIC or s.startswith('Callable') or 'Callable' in s


class Aliases:
    def __init__(self, idx):
        self.idx = idx
        self.memo = {}
        self.busy = set()

    def summary(self, fn):
        if fn in self.memo:
            return self.memo[fn]
        if fn in self.busy:
            return Summary()
        self.busy.add(fn)
        s = Summary()
        try:
            Walk(self, fn, s).run()
        finally:
            self.busy.discard(fn)
        self.memo[fn] = s
        return s


class Walk:
    def __init__(self, al, fn, s):
        self.al, self.fn, self.s = al, fn, s
        self.idx = al.idx
        self.cls = getattr(fn, 'cls', None)
        self.types = {}

    def run(self):
        a = self.fn.args
        env = {}
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(ps):
            if i == 0 and self.cls is not None and 'staticmethod' not in getattr(self.fn, 'deco', []):
                env[p.arg] = frozenset([('o', 'self')])
                continue
            if p.annotation is not None:
                self.types[p.arg] = p.annotation
            env[p.arg] = frozenset() if scalar(p.annotation) else frozenset([('p', p.arg)])
        if a.vararg:
            env[a.vararg.arg] = frozenset([('p', a.vararg.arg)])
        self.block(self.fn.body, env)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            if self.stmt(s, env):
                return True
        return False

    def join(self, a, b):
        def get(e, k):
            return e.get(k, frozenset([('a', 'self', k[1])]) if isinstance(k, tuple) else frozenset())
        return {k: get(a, k) | get(b, k) for k in set(a) | set(b)}

    def stmt(self, s, env):
        """True if control does not continue after s."""
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return False
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= self.ev(s.value, env)
            return True
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            e1, e2 = dict(env), dict(env)
            d1, d2 = self.block(s.body, e1), self.block(s.orelse, e2)
            out = e2 if d1 else e1 if d2 else self.join(e1, e2)
            env.clear()
            env.update(out)
            return d1 and d2
        if isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                e = dict(env)
                if isinstance(s, ast.For):
                    self.bind(s.target, self.items(s.iter, e), e, loop=s.iter)
                else:
                    self.ev(s.test, e)
                self.block(s.body, e)
                env.update(self.join(env, e))
            self.block(s.orelse, env)
            return False
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            e = dict(env)
            d = self.block(s.body, env)
            for h in s.handlers:
                e2 = self.join(e, env)
                self.block(h.body, e2)
                env.update(self.join(env, e2))
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
            return d and all(isinstance(h.body[-1], (ast.Raise, ast.Return)) for h in s.handlers)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.ev(x, env) for x in s.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.bind(x, y, env)
                else:
                    self.bind(t, v, env)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
            return False
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, env), s)
            elif isinstance(t, ast.Name):
                if not self.is_scalar(t, env):
                    self.mutate(env.get(t.id, frozenset()), s, weak=True)
            else:
                self.mutate(self.ev(t, env), s, weak=True)
            return False
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), s)
            return False
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return False
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ev(n, env)
        return False

    def items(self, e, env):
        """what the elements of an iterable share."""
        if isinstance(e, (ast.List, ast.Tuple)):
            out = frozenset()
            for x in e.elts:
                out |= self.ev(x, env)
            return out
        return frozenset(x[:2] + ('e',) if x[0] == 'p' else x for x in self.ev(e, env))

    def is_scalar(self, t, env):
        return False

    def bind(self, t, v, env, loop=None):
        if isinstance(t, ast.Name):
            env[t.id] = v if not (loop is not None and self.numeric_iter(loop)) else frozenset()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v, env, loop)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)
        elif isinstance(t, ast.Subscript):
            self.mutate(self.ev(t.value, env), t)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if self.path(t, env):
                env[('attr', self.path(t, env))] = v
            if ('o', 'self') in b:
                g = self.cls.find(self.idx, 'setters', t.attr)[0] if self.cls is not None else None
                if g is not None and g is not self.fn:
                    self.apply(g, frozenset([('o', 'self')]), [v], {}, t)
                    return
                self.s.retain.setdefault(t.attr, set()).update(v)
                env[('attr', t.attr)] = v | frozenset()
            for r in b:
                if r[0] == 'p':
                    self.s.mut.setdefault(('f', r[1], t.attr), self.at(t))

    def path(self, e, env):
        """'particles.coordinates' for self.particles.coordinates."""
        out = []
        while isinstance(e, ast.Attribute):
            out.append(e.attr)
            e = e.value
        if len(out) > 1 and isinstance(e, ast.Name) and ('o', 'self') in env.get(e.id, ()):
            return '.'.join(reversed(out))

    def numeric_iter(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('range', 'enumerate') and not (
            e.func.id == 'enumerate')

    def at(self, n):
        return (n.lineno, ast.unparse(n)[:80])

    def mutate(self, roots, node, weak=False):
        for r in roots:
            if r[0] == 'p':
                head = r[1].split('.')[0]
                name = getattr(getattr(node, 'target', None), 'id', None)
                if weak and name is not None and self.used_as_array(name):
                    self.s.mut.setdefault(r[:2], self.at(node))
                elif weak and (len(r) == 3 or r[1] == head and not self.arraylike(head)):
                    self.s.maybe.setdefault(r[:2], self.at(node))
                else:
                    self.s.mut.setdefault(r[:2], self.at(node))
            elif r[0] == 'a':
                self.s.mut.setdefault(r, self.at(node))

    def used_as_array(self, name):
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in n.args[:1]) and (
                    getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('len', 'sum', 'mean', 'min', 'max', 'amin', 'amax', 'std', 'argmax',
                                                                        'argmin', 'median', 'size', 'any', 'all', 'trapz', 'percentile')):
                return True
        return False

    def arraylike(self, p):
        return p in self.types and any(k in ast.unparse(self.types[p]) for k in ('ndarray', 'List', 'list', 'Sequence', 'Iterable', 'FloatArr', 'ArrayLike'))

    def listlike(self, roots):
        return bool(roots) and all(r[0] == 'p' and r[1] in self.types and 'ndarray' not in ast.unparse(self.types[r[1]]) and any(
            k in ast.unparse(self.types[r[1]]) for k in ('List', 'list', 'Sequence')) for r in roots)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            p = self.path(e, env)
            if p and ('attr', p) in env:
                return env[('attr', p)]
            if ('o', 'self') in b:
                if ('attr', e.attr) in env:
                    return env[('attr', e.attr)] | frozenset([('n', 'self', e.attr)])
                g = self.cls.find(self.idx, 'getters', e.attr)[0] if self.cls is not None else None
                if g is not None and g is not self.fn:
                    return self.translate(self.al.summary(g).ret, {})
                return frozenset([('a', 'self', e.attr)])
            if e.attr in ('T', 'flat', 'real', 'imag'):
                return b
            if e.attr in ('shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize'):
                return frozenset()
            # a field of a parameter object
            return frozenset(('p', r[1] + '.' + e.attr) for r in b if r[0] == 'p')
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if not self.basic(e.slice, env):
                return frozenset()
            if isinstance(e.slice, ast.Slice):
                return frozenset() if self.listlike(b) else b
            if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                return b
            return frozenset(x[:2] + ('e',) if x[0] == 'p' else x for x in b)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if isinstance(e, (ast.List, ast.Set)):
            for x in e.elts:
                self.ev(x, env)
            return frozenset()
        if isinstance(e, ast.Tuple):
            out = frozenset()
            for x in e.elts:
                out |= self.ev(x, env)
            return out
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            e2 = dict(env)
            for g in e.generators:
                self.bind(g.target, self.ev(g.iter, e2), e2, loop=g.iter)
                for c in g.ifs:
                    self.ev(c, e2)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, e2)
                self.ev(e.value, e2)
                return frozenset()
            v = self.ev(e.elt, e2)
            return v if isinstance(e, ast.GeneratorExp) else frozenset()
        if isinstance(e, ast.Lambda):
            return frozenset()
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n, env)
        return frozenset()

    def basic(self, s, env):
        """index of a view (integers and slices); an array or a mask copies."""
        if isinstance(s, ast.Tuple):
            return all(self.basic(x, env) for x in s.elts)
        if isinstance(s, (ast.Slice, ast.Constant)):
            return True
        if isinstance(s, ast.UnaryOp):
            return self.basic(s.operand, env)
        if isinstance(s, (ast.Compare, ast.BoolOp, ast.List, ast.Call)):
            return isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ('int', 'slice', 'len')
        if isinstance(s, ast.BinOp):
            return self.basic(s.left, env) and self.basic(s.right, env)
        if isinstance(s, ast.Name):
            d = self.defs(s.id)
            return bool(d) and all(d)
        if isinstance(s, ast.Attribute):
            return True
        return False

    def defs(self, name):
        """for every definition of a local name: is it an integer or slice."""
        memo = self.__dict__.setdefault('_defs', {})
        if name in memo:
            return memo[name]
        memo[name] = [True]
        out = []
        a = self.fn.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                out.append(p.annotation is not None and ast.unparse(p.annotation).strip('\'"') in ('int', 'slice'))
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.For, ast.comprehension)):
                t = n.target
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range')
                elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                    out.append(isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate'
                               and isinstance(t.elts[0], ast.Name) and t.elts[0].id == name)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                out.append(self.intlike(n.value))
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts)
                                                   for t in n.targets):
                out.append(False)
        memo[name] = out
        return out

    def intlike(self, v):
        if isinstance(v, ast.Constant):
            return isinstance(v.value, int)
        if isinstance(v, ast.BinOp):
            return self.intlike(v.left) and self.intlike(v.right)
        if isinstance(v, ast.UnaryOp):
            return self.intlike(v.operand)
        if isinstance(v, ast.Call):
            return isinstance(v.func, ast.Name) and v.func.id in ('int', 'len', 'slice', 'round')
        if isinstance(v, ast.Name):
            d = self.defs(v.id)
            return bool(d) and all(d)
        return isinstance(v, ast.Attribute)

    def translate(self, roots, binding):
        out = set()
        for r in roots:
            if r[0] == 'p':
                head, *rest = r[1].split('.')
                for x in binding.get(head, ()):
                    if not rest:
                        out.add(x)
                    elif x == ('o', 'self'):
                        out.add(('a', 'self', rest[0]))
                    elif x[0] == 'p':
                        out.add(('p', '.'.join([x[1]] + rest)))
            elif r[0] == 'a':
                for x in binding.get('$self', (('o', 'self'),)):
                    if x == ('o', 'self'):
                        out.add(r)
                    elif x[0] == 'p':
                        out.add(('p', x[1] + '.' + r[2]))
        return frozenset(out)

    def target(self, f, env):
        """(function, receiver roots or None)"""
        mod = self.fn.mod
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            if ('o', 'self') in b and self.cls is not None:
                m = self.cls.find(self.idx, 'methods', f.attr)[0]
                if m is not None:
                    return m, frozenset([('o', 'self')])
            if isinstance(f.value, ast.Name) and f.value.id in self.types:
                r = self.idx.resolve_expr(mod, self.types[f.value.id]) if isinstance(self.types[f.value.id], (ast.Name, ast.Attribute)) else None
                if r is not None and r[0] == 'class':
                    m = r[1].find(self.idx, 'methods', f.attr)[0]
                    if m is not None:
                        return m, b
        if isinstance(f, ast.Name) and f.id in env:
            return None, None
        base = f
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name) and base.id in env:
            return None, None
        r = self.idx.resolve_expr(mod, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == 'func':
            return r[1], None
        if r is not None and r[0] == 'class':
            m = r[1].find(self.idx, 'methods', '__init__')[0]
            return m, 'new'
        return None, None

    def call(self, e, env):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if 'out' in kws:
            self.mutate(kws['out'], e)
        fn, recv = self.target(f, env)
        if fn is not None:
            best = frozenset()
            for g in self.overloads(fn):
                best |= self.apply(g, recv, args, kws, e)
            return best
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        r = self.idx.resolve_expr(self.fn.mod, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        ext = r[1] if r is not None and r[0] == 'ext' else ''
        if ext.startswith(('numpy', 'cupy', 'scipy')) or '.tomo_config.' in ext or 'libtomo' in ext or self.conf(f):
            if name in MUTATORS and args and not (name == 'at' and False):
                self.mutate(args[0], e)
                return frozenset()
            if any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords) and name == 'nan_to_num':
                self.mutate(args[0] if args else kws.get('x', frozenset()), e)
            if name in NATIVE and ('libtomo' in ext or self.conf(f)):
                for i in NATIVE[name]:
                    if i < len(args):
                        self.mutate(args[i], e)
                out = frozenset()
                for i in NATIVE[name]:
                    if i < len(args):
                        out |= args[i]
                return out
            if name in VIEWS and args:
                return args[0]
            if name == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords) and args:
                return args[0]
            return frozenset()
        if isinstance(f, ast.Name):
            if f.id in ('zip', 'reversed', 'enumerate', 'iter', 'next', 'map', 'filter') and args:
                out = frozenset()
                for a in args:
                    out |= a
                return out
            return frozenset()
        # methods of values
        b = self.ev(f.value, env) if isinstance(f, ast.Attribute) else frozenset()
        if name in INPLACE and name not in ('update', 'pop', 'clear', 'remove', 'insert', 'extend', 'append', 'setdefault'):
            self.mutate(b, e)
            return frozenset()
        if name == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
            return b
        if name in VIEWS:
            return b
        return frozenset()

    def conf(self, f):
        r = self.idx.resolve_expr(self.fn.mod, f.value) if isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Attribute)) else None
        return r is not None and r[0] == 'mod' and r[1].name.endswith('tomo_config')

    def overloads(self, fn):
        out, f = [], fn
        while f is not None and len(out) < 6:
            out.append(f)
            f = getattr(f, 'prev_def', None) if 'dispatch' in getattr(f, 'deco', []) else None
        return out

    def apply(self, g, recv, args, kws, e):
        s = self.al.summary(g)
        ps = [p.arg for p in g.args.posonlyargs + g.args.args]
        binding = {}
        deco = getattr(g, 'deco', [])
        if getattr(g, 'cls', None) is not None and 'staticmethod' not in deco and ps:
            binding['$self'] = recv if recv not in (None, 'new') else frozenset()
            ps = ps[1:]
        for p, a in zip(ps, args):
            binding[p] = a
        for k, a in kws.items():
            if k is not None:
                binding[k] = a
        for r, w in s.mut.items():
            if r[0] == 'f':
                for x in binding.get(r[1], ()):
                    if x[0] == 'p':
                        self.s.mut.setdefault(('f', x[1], r[2]), self.at(e))
                continue
            for x in self.translate([r], binding):
                if x[0] in 'pa':
                    self.s.mut.setdefault(x[:2] if x[0] == 'p' else x, (e.lineno, '%s: %s' % (g.name, w[1])))
        if recv == frozenset([('o', 'self')]):
            for a, roots in s.retain.items():
                self.s.retain.setdefault(a, set()).update(self.translate([x for x in roots if x[0] == 'p'], binding))
        return self.translate(s.ret, binding)
