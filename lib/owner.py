"""Ownership of native heap memory: a typestate interpretation of the lowered C++ with all exits, exceptional ones included.

Every allocation site gives an object that is live until it is released, exactly once, by the matching delete, or until it is handed
to an owner (a py::capsule whose deleter releases it). Paths are kept apart by the state of the objects and by the outcome of
branch conditions; calls of package functions and lambdas are followed, a call that runs Python code may throw."""
import ast
from pyfront import rel

PARENT = {
    'runtime_error': 'exception', 'logic_error': 'exception', 'bad_alloc': 'exception', 'error_already_set': 'exception',
    'bad_cast': 'exception', 'bad_function_call': 'exception', 'bad_array_new_length': 'bad_alloc',
    'out_of_range': 'logic_error', 'invalid_argument': 'logic_error', 'length_error': 'logic_error', 'domain_error': 'logic_error',
    'range_error': 'runtime_error', 'overflow_error': 'runtime_error', 'underflow_error': 'runtime_error',
    'system_error': 'runtime_error', 'builtin_exception': 'runtime_error', 'cast_error': 'builtin_exception',
    'reference_cast_error': 'cast_error', 'value_error': 'builtin_exception', 'index_error': 'builtin_exception',
    'key_error': 'builtin_exception', 'type_error': 'builtin_exception', 'stop_iteration': 'builtin_exception',
    'buffer_error': 'builtin_exception', 'import_error': 'builtin_exception', 'attribute_error': 'builtin_exception'}
PYTHON = 'error_already_set'
PYCALL = {'attr', '__getattr__', 'cast', 'unchecked', 'mutable_unchecked'}
KNOWN_CLASS = ('std::function', 'std::vector', 'std::string', 'std::array', 'std::pair', 'std::tuple', 'any_container', 'py::str',
               'std::complex', 'std::basic_string')


def catches(handler, exc):
    """does a handler for `handler` (None: all) catch `exc`? None if not known."""
    if handler is None:
        return True
    x = exc
    while x is not None:
        if x == handler:
            return True
        if x not in PARENT and x != 'exception':
            return None
        x = PARENT.get(x)
    return False


class Val:
    __slots__ = ('kind', 'a', 'b', 'owns')

    def __init__(self, kind, a=None, b=None, owns=frozenset()):
        self.kind, self.a, self.b, self.owns = kind, a, b, owns

    def key(self):
        if self.kind == 'lam':
            return ('lam', id(self.a), self.b)
        if self.kind == 'tuple':
            return ('tuple', tuple(x.key() for x in self.a))
        return (self.kind, self.a, self.b, self.owns)


UNK = Val('unk')
NULL = Val('null')


class State:
    def __init__(self):
        self.heap, self.frames, self.facts, self.exc = {}, [], {}, None

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = [dict(f) for f in self.frames]
        s.facts = dict(self.facts)
        s.exc = self.exc
        return s

    def key(self):
        return (tuple(sorted(self.heap.items())), tuple(tuple(sorted((k, v.key()) for k, v in f.items())) for f in self.frames),
                tuple(sorted(self.facts.items())), self.exc)


def uniq(sts):
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


class TooMany(Exception):
    pass


class Owner:
    LIMIT = 400

    def __init__(self, nat, real):
        self.nat, self.real = nat, real
        self.sites = {}             # site -> (node, function, text)
        self.bad = {}               # (rule, site or None, where) -> message
        self.unsure = {}            # site -> reason
        self.raised = []            # stack of lists of (type, origin, state)
        self.stack = []
        self.uses = set()
        self.visited = set()
        self.catchers = []
        self.swallowed = []
        self.replaced = []

    # ------------------------------------------------------------------ reports
    def where(self, node):
        f = self.stack[-1] if self.stack else None
        return '%s:%d' % (rel(f.cfile) if f is not None and getattr(f, 'cfile', None) else '?', getattr(node, 'lineno', 0))

    def report(self, rule, aid, node, msg):
        self.bad.setdefault((rule, aid[0] if aid else None, self.where(node)), msg)

    def escape(self, st, v, why):
        if v is None:
            return
        if v.kind == 'ptr':
            if st.heap.get(v.a, ('',))[0] == 'live':
                st.heap[v.a] = ('escaped', st.heap[v.a][1])
                self.unsure.setdefault(v.a[0], why)
        elif v.kind == 'tuple':
            for x in v.a:
                self.escape(st, x, why)

    def use(self, st, v, node):
        if v is not None and v.kind == 'ptr' and v.a in st.heap:
            self.uses.add((v.a[0], self.where(node)))
            if st.heap[v.a][0] == 'freed':
                self.report('use-after-release', v.a, node, 'the memory is used after it was released')

    def throw(self, st, ty, origin):
        self.raised[-1].append((ty, origin, st.clone()))

    # ------------------------------------------------------------------ functions
    def resolve(self, name, n):
        fs = [f for f in self.nat.by_name.get(name, []) if len(f.args.args) >= n and rel(f.cfile or '').startswith(
            'longitudinal_tomography/')]
        fs.sort(key=lambda f: (len(f.args.args) != n, bool(f.targs) and self.real not in f.targs.values()))
        return fs[0] if fs else None

    def entry(self, fn):
        st = State()
        self.raised.append([])
        outs = self.invoke(fn, [UNK] * len(fn.args.args), [st], None, None)
        exc = self.dedupe(self.raised.pop())
        return [s for _, _, s in outs], exc

    def invoke(self, fn, args, sts, node, closure):
        """(kind, value, state) exits of a call; exceptions go to the list of the caller."""
        if len(self.stack) > 14 or self.stack.count(fn) > 1:
            for s in sts:
                for a in args:
                    self.escape(s, a, 'recursive call')
            return [('return', UNK, s) for s in sts]
        self.visited.add(fn.name)
        if getattr(fn, 'cfile', None) is None:
            fn.cfile = getattr(self.stack[-1], 'cfile', None) if self.stack else None
        self.stack.append(fn)
        outs = []
        try:
            for s in sts:
                s = s.clone()
                fr = {}
                for p, a in zip(fn.args.args, args):
                    fr[p.arg] = a
                depth = len(s.frames)
                fr['$up'] = Val('up', closure)
                s.frames.append(fr)
                s.facts = {k: v for k, v in s.facts.items()}
                for kind, v, e in self.block(fn.body, [s]):
                    if kind in ('next', 'return'):
                        e = e.clone()
                        top = e.frames[depth]
                        refs = {}
                        for i, p in enumerate(fn.args.args):
                            if getattr(p, 'ctype', '').replace(' ', '').endswith('*&'):
                                refs[i] = top.get(p.arg, UNK)
                        del e.frames[depth:]
                        e.facts = {k: x for k, x in e.facts.items() if k[0] < len(e.frames)}
                        if node is not None:
                            for i, x in refs.items():
                                if i < len(node.args) and isinstance(node.args[i], ast.Name):
                                    self.setvar(e, node.args[i].id, x)
                        outs.append(('return', v if kind == 'return' else UNK, e))
        finally:
            self.stack.pop()
        # frames of exceptional exits are cut by the handler
        return outs

    # ------------------------------------------------------------------ variables
    def chain(self, st):
        i = len(st.frames) - 1
        while i is not None and i >= 0:
            yield i
            up = st.frames[i].get('$up')
            i = up.a if up is not None else None

    def getvar(self, st, n):
        for i in self.chain(st):
            if n in st.frames[i]:
                return st.frames[i][n]
        return UNK

    def setvar(self, st, n, v, new=False):
        tgt = None
        if not new:
            for i in self.chain(st):
                if n in st.frames[i]:
                    tgt = i
                    break
        if tgt is None:
            tgt = len(st.frames) - 1
        st.frames[tgt][n] = v
        for k in [k for k in st.facts if n in k[2]]:
            del st.facts[k]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, sts):
        """exits (kind, value, state)."""
        outs = []
        cur = sts
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                for o in self.stmt(s, st):
                    (nxt if o[0] == 'next' else outs).append(o if o[0] != 'next' else o[2])
            cur = uniq(nxt)
            if len(cur) > self.LIMIT:
                raise TooMany()
        outs += [('next', None, s) for s in cur]
        return outs

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [('next', None, x) for _, x in self.evs([n for n in ast.iter_child_nodes(s) if isinstance(n, ast.expr)], st)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [('next', None, st)]

    s_Nonlocal = s_Global = s_Pass

    def s_FunctionDef(self, s, st):
        st = st.clone()
        s.cfile = getattr(self.stack[-1], 'cfile', None)
        st.frames[-1][s.name] = Val('lam', s, len(st.frames) - 1)
        return [('next', None, st)]

    def s_Expr(self, s, st):
        return [('next', None, x) for v, x in self.ev(s.value, st)]

    def s_Assign(self, s, st):
        out = []
        for v, x in self.ev(s.value, st):
            x = x.clone()
            for tg in s.targets:
                self.assign(tg, v, x, s)
            out.append(('next', None, x))
        return out

    def s_AnnAssign(self, s, st):
        return self.s_Assign(ast.copy_location(ast.Assign([s.target], s.value or ast.Constant(None)), s), st)

    def s_AugAssign(self, s, st):
        out = []
        for v, x in self.ev(s.value, st):
            for o, y in self.ev(s.target, x):
                y = y.clone()
                if isinstance(s.target, ast.Name):
                    if o.kind == 'ptr':
                        o = Val('ptr', o.a, 'inner')
                        self.setvar(y, s.target.id, o)
                    else:
                        self.setvar(y, s.target.id, UNK)
                out.append(('next', None, y))
        return out

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            self.setvar(st, tg.id, v, new=getattr(tg, 'cdecl', False))
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for x in tg.elts:
                self.assign(x, UNK, st, node)
            self.escape(st, v, 'unpacked')
        else:
            for b, x in self.ev(tg.value, st):
                self.use(x, b, node)
                break
            self.escape(st, v, 'kept in a structure')

    def s_Return(self, s, st):
        if s.value is None:
            return [('return', UNK, st)]
        return [('return', v, x) for v, x in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [('break', None, st)]

    def s_Continue(self, s, st):
        return [('continue', None, st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            ty, origin = st.exc or ('exception', None)
            self.throw(st, ty, origin)
            return []
        ty = 'exception'
        if isinstance(s.exc, ast.Call) and s.exc.args and isinstance(s.exc.args[0], ast.Constant):
            ty = s.exc.args[0].value
        if st.exc is not None and st.exc[1] and st.exc[1][0] == 'python':
            self.replaced.append((st.exc[1], ty, self.where(s)))
        self.throw(st, ty, ('throw', self.where(s)))
        return []

    def truth(self, test, st):
        """[(bool or None, state)] of a condition."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(None if b is None else not b, x) for b, x in self.truth(test.operand, st)]
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, out = [(isand, st)], []
            for i, v in enumerate(test.values):
                nxt = []
                for b, x in cur:
                    for c, y in self.branch(v, x):
                        (nxt if c == isand else out).append((c, y))
                cur = nxt
            return out + cur
        if isinstance(test, ast.Constant):
            return [(bool(test.value), st)]
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.NotEq)) \
                and any(isinstance(x, ast.Constant) and x.value in (None, 0) for x in (test.left, test.comparators[0])):
            o = test.comparators[0] if isinstance(test.left, ast.Constant) else test.left
            out = []
            for v, x in self.ev(o, st):
                if v.kind in ('ptr', 'null'):
                    out.append(((v.kind == 'null') == isinstance(test.ops[0], ast.Eq), x))
                else:
                    out.append((None, x))
            return out
        out = []
        for v, x in self.ev(test, st):
            out.append((True if v.kind in ('ptr',) else False if v.kind == 'null' else v.a if v.kind == 'bool' else None, x))
        return out

    def branch(self, test, st):
        """both outcomes of a condition, with the outcome remembered where the condition is stable."""
        out = []
        for b, x in self.truth(test, st):
            if b is not None:
                out.append((b, x))
                continue
            k = None
            neg = False
            tt = test
            while isinstance(tt, ast.UnaryOp) and isinstance(tt.op, ast.Not):
                neg, tt = not neg, tt.operand
            names = frozenset(n.id for n in ast.walk(tt) if isinstance(n, ast.Name))
            if not any(isinstance(n, (ast.Subscript, ast.Call)) and not (isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in ('has_value', 'is_none', 'empty')) for n in ast.walk(tt)):
                k = (len(x.frames) - 1, ast.unparse(tt), names)
            if k is not None and k in x.facts:
                out.append((x.facts[k] != neg, x))
                continue
            for c in (True, False):
                y = x.clone()
                if k is not None:
                    y.facts[k] = c != neg
                out.append((c, y))
        return out

    def s_If(self, s, st):
        t, f = [], []
        for b, x in self.branch(s.test, st):
            (t if b else f).append(x)
        return (self.block(s.body, uniq(t)) if t else []) + (self.block(s.orelse, uniq(f)) if f else [])

    def s_While(self, s, st):
        return self.loop(s, [st], s.test, s.body, getattr(s, 'inc', None) or [])

    def s_For(self, s, st):
        out = []
        for _, x in self.ev(s.iter, st):
            x = x.clone()
            self.assign(s.target, UNK, x, s)
            out += self.loop(s, [x], None, s.body, [])
        return out

    def loop(self, s, sts, test, body, inc):
        outs, done = [], []
        seen = set()
        work = [(x, 0) for x in sts]
        while work:
            x, n = work.pop()
            x = x.clone()
            x.facts = {k: v for k, v in x.facts.items() if not (k[2] & self.written(s))}
            k = x.key()
            if k in seen or n > 3:
                if n > 3:
                    done.append(x)
                continue
            seen.add(k)
            if len(seen) > self.LIMIT:
                raise TooMany()
            bs = self.branch(test, x) if test is not None else [(True, x), (False, x.clone())]
            for b, y in bs:
                if not b:
                    done.append(y)
                    continue
                for kind, v, z in self.block(body, [y]):
                    if kind == 'break':
                        done.append(z)
                    elif kind in ('next', 'continue'):
                        for kk, vv, zz in self.block(inc, [z]):
                            if kk == 'next':
                                work.append((zz, n + 1))
                    else:
                        outs.append((kind, v, z))
        for x in done:
            x.facts = {k: v for k, v in x.facts.items() if not (k[2] & self.written(s))}
        return outs + [('next', None, x) for x in uniq(done)]

    def written(self, s):
        if not hasattr(s, '_written'):
            s._written = frozenset(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) | frozenset(
                n.id for i in getattr(s, 'inc', None) or [] for n in ast.walk(i) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        return s._written

    def s_With(self, s, st):
        return self.block(s.body, [st])

    def s_Try(self, s, st):
        depth = len(st.frames)
        self.raised.append([])
        outs = self.block(s.body, [st])
        exc = self.raised.pop()
        for ty, origin, x in self.dedupe(exc):
            y = x.clone()
            del y.frames[depth:]
            y.facts = {k: v for k, v in y.facts.items() if k[0] < len(y.frames)}
            caught = False
            for h in s.handlers:
                hn = h.type.id.split('::')[-1] if isinstance(h.type, ast.Name) else None
                c = catches(hn, ty)
                if c is False:
                    continue
                old = y.exc
                z = y.clone()
                z.exc = (ty, origin)
                if h.name:
                    self.setvar(z, h.name, Val('exc', hn), new=True)
                for kind, v, e in self.block(h.body, [z]):
                    e = e.clone()
                    e.exc = old
                    if kind in ('next', 'return'):
                        self.swallowed.append((ty, origin, self.where(h)))
                    outs.append((kind, v, e))
                if c:
                    caught = True
                    break
            if not caught:
                self.raised[-1].append((ty, origin, y))
        return outs

    @staticmethod
    def dedupe(exc):
        seen, out = set(), []
        for ty, origin, x in exc:
            k = (ty, origin, x.key())
            if k not in seen:
                seen.add(k)
                out.append((ty, origin, x))
        return out

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        cur = [([], st)]
        for n in nodes:
            nxt = []
            for vs, x in cur:
                for v, y in self.ev(n, x):
                    nxt.append((vs + [v], y))
            cur = nxt
            if len(cur) > self.LIMIT:
                raise TooMany()
        return cur

    def ev(self, n, st):
        if isinstance(n, ast.Constant):
            return [(NULL if n.value is None else Val('bool', n.value) if isinstance(n.value, bool) else UNK, st)]
        if isinstance(n, ast.Name):
            return [(self.getvar(st, n.id), st)]
        if isinstance(n, ast.Call):
            return self.call(n, st)
        if isinstance(n, ast.IfExp):
            out = []
            for b, x in self.branch(n.test, st):
                out += self.ev(n.body if b else n.orelse, x)
            return out
        if isinstance(n, ast.Lambda):
            return [(UNK, st)]
        if isinstance(n, (ast.List, ast.Tuple)):
            return [(Val('tuple', tuple(vs)), x) for vs, x in self.evs(n.elts, st)]
        if isinstance(n, ast.Subscript):
            out = []
            for vs, x in self.evs([n.value, n.slice], st):
                self.use(x, vs[0], n)
                out.append((UNK, x))
            return out
        if isinstance(n, ast.Attribute):
            return [(Val('bound', n.attr, None, v.owns) if v.kind != 'lam' else v, x) for v, x in self.ev(n.value, st)]
        if isinstance(n, ast.BinOp):
            out = []
            for vs, x in self.evs([n.left, n.right], st):
                p = [v for v in vs if v.kind == 'ptr']
                out.append((Val('ptr', p[0].a, 'inner') if len(p) == 1 else UNK, x))
            return out
        kids = [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        return [(UNK, x) for _, x in self.evs(kids, st)]

    def call(self, n, st):
        f = n.func
        args = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
        if isinstance(f, ast.Name) and f.id.startswith('__c') and f.id.endswith('__') and not f.id.startswith('__cf_'):
            return self.builtin(f.id, n, args, st)
        if isinstance(f, ast.Name) and f.id.startswith('__cf_'):
            name = f.id[5:]
            out = []
            for vs, x in self.evs(args, st):
                fn = self.resolve(name, len(vs))
                out += self.package(fn, vs, x, n) if fn is not None else self.external(name, vs, x, n)
            return out
        if isinstance(f, ast.Attribute):
            out = []
            for vs, x in self.evs([f.value] + args, st):
                out += self.method(f.attr, vs[0], vs[1:], x, n)
            return out
        out = []
        for vs, x in self.evs([f] + args, st):
            out += self.apply(vs[0], vs[1:], x, n)
        return out

    def package(self, fn, vs, x, n):
        return [(v, s) for k, v, s in self.invoke(fn, vs, [x], n, None) if k == 'return']

    def apply(self, f, vs, x, n):
        if f.kind == 'lam':
            return [(v, s) for k, v, s in self.invoke(f.a, vs, [x], n, f.b) if k == 'return']
        # a call of something unknown: a Python object or a function object from outside
        x = x.clone()
        for v in vs:
            self.use(x, v, n)
            self.escape(x, v, 'given to a function object')
        if f.kind == 'unk' or f.kind == 'py':
            self.throw(x, PYTHON, ('python', self.where(n)))
        return [(UNK, x)]

    def method(self, name, o, vs, x, n):
        if name.startswith('operator '):
            if o.kind == 'py':
                self.throw(x, PYTHON, ('python', self.where(n)))
                return [(UNK, x)]
            return [(o, x)]
        if o.kind == 'lam' and name in ('operator()', '__call__'):
            return self.apply(o, vs, x, n)
        if name in PYCALL or name == 'at':
            self.throw(x, PYTHON if name != 'at' else 'out_of_range', ('python', self.where(n)))
            return [(Val('py'), x)]
        x = x.clone()
        for v in vs:
            self.use(x, v, n)
            if v.kind == 'ptr':
                self.escape(x, v, 'given to %s' % name)
        if name == 'release' and o.owns:
            for a in o.owns:
                self.unsure.setdefault(a[0], 'its owner lets go of it')
                x.heap[a] = ('escaped', x.heap[a][1])
        if name == 'value':
            return [(Val('py'), x)]
        return [(UNK, x)]

    def external(self, name, vs, x, n):
        x = x.clone()
        for v in vs:
            self.use(x, v, n)
        if name in ('malloc', 'calloc', 'aligned_alloc'):
            return [self.new(x, n, 'malloc')]
        if name == 'free':
            self.delete(x, vs[0], 'malloc', n)
            return [(UNK, x)]
        if name == 'move' and len(vs) == 1 or name == 'forward' and len(vs) == 1:
            return [(vs[0], x)]
        if name in ('make_tuple', 'pair', 'make_pair', 'tie'):
            return [(Val('tuple', tuple(vs)), x)]
        if name in ('exchange',):
            self.escape(x, vs[0], 'exchange')
        return [(UNK, x)]

    def new(self, x, n, form):
        f = self.stack[-1]
        site = '%s:%d:%d' % (f.name, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        self.sites.setdefault(site, (self.where(n), [g.name for g in self.stack]))
        k = 0
        while (site, k) in x.heap:
            k += 1
        if k > 2:
            k = 2
        aid = (site, k)
        x.heap[aid] = ('live', form)
        return Val('ptr', aid), x

    def delete(self, x, v, form, n):
        if v.kind == 'null':
            return
        if v.kind != 'ptr' or v.a not in x.heap:
            return
        status, f = x.heap[v.a]
        if v.b == 'inner':
            self.report('release', v.a, n, 'the release starts in the middle of the allocated memory')
        if status == 'freed':
            self.report('release', v.a, n, 'the memory is released a second time')
        elif status == 'owned':
            self.report('release', v.a, n, 'the memory is released although a capsule will release it')
        elif f != form:
            self.report('release', v.a, n, 'allocated with %s, released with %s' % (
                {'[]': 'new[]', '': 'new', 'malloc': 'malloc'}[f], {'[]': 'delete[]', '': 'delete', 'malloc': 'free'}[form]))
        x.heap[v.a] = ('freed', f)

    def builtin(self, name, n, args, st):
        out = []
        for vs, x in self.evs(args, st):
            x = x.clone()
            if name == '__cnew__':
                arr = isinstance(args[3], ast.Constant) and args[3].value is True if len(args) > 3 else True
                out.append(self.new(x, n, '[]' if arr else ''))
            elif name == '__cdelete__':
                arr = isinstance(args[1], ast.Constant) and args[1].value is True
                self.delete(x, vs[0], '[]' if arr else '', n)
                out.append((UNK, x))
            elif name == '__cptradd__':
                v = vs[0]
                if v.kind == 'ptr' and not (isinstance(args[1], ast.Constant) and args[1].value == 0):
                    v = Val('ptr', v.a, 'inner')
                out.append((v, x))
            elif name == '__caddr__':
                out.append((vs[0] if vs[0].kind == 'ptr' else UNK, x))
            elif name == '__cctor__':
                out += self.ctor(args, vs, x, n)
            elif name == '__copaque__':
                for v in vs:
                    self.escape(x, v, 'construct that is not analysed')
                out.append((UNK, x))
            else:
                for v in vs:
                    if name not in ('__cuninit__', '__carray__', '__csizeof__'):
                        self.escape(x, v, name)
                out.append((UNK, x))
        return out

    def ctor(self, args, vs, x, n):
        cls = args[0].value if isinstance(args[0], ast.Constant) else '?'
        vs = vs[1:]
        base = cls.replace('pybind11::', 'py::').split('<')[0]
        if base == 'py::capsule':
            return self.capsule(vs, x, n)
        if base in ('py::array_t', 'py::array'):
            if len(vs) == 1:
                if vs[0].kind == 'py':
                    self.throw(x, PYTHON, ('python', self.where(n)))
                return [(vs[0] if vs[0].kind == 'array' else UNK, x)]
            p = [v for v in vs if v.kind == 'ptr']
            b = [v for v in vs[1:] if v.kind in ('capsule', 'array')]
            last = vs[-1]
            for v in p:
                self.use(x, v, n)
            if p and last.kind != 'ptr':
                # a base was given: the data is not copied
                holds = frozenset().union(*[v.owns for v in b]) if b else frozenset()
                if b and last.kind in ('capsule', 'array'):
                    for v in p:
                        if v.a not in holds and x.heap.get(v.a, ('',))[0] in ('owned', 'live'):
                            self.report('kept-alive', v.a, n, 'the array shows memory that its base does not keep alive')
                elif last.kind == 'unk' or last.kind == 'null':
                    for v in p:
                        self.unsure.setdefault(v.a[0], 'array with an unknown base')
                return [(Val('array', None, None, holds), x)]
            return [(UNK, x)]
        if base.startswith('py::') and len(vs) == 1 and vs[0].kind == 'py':
            self.throw(x, PYTHON, ('python', self.where(n)))
            return [(Val('py') if base in ('py::object', 'py::function') else UNK, x)]
        if len(vs) == 1 and vs[0].kind in ('lam', 'capsule', 'array'):
            return [(vs[0], x)]
        if base.startswith('std::function') and not vs:
            return [(Val('unk'), x)]
        if not any(k in cls for k in KNOWN_CLASS):
            for v in vs:
                self.escape(x, v, 'owned by an object of class ' + cls)
        for v in vs:
            self.use(x, v, n)
        return [(Val('tuple', tuple(vs)) if vs else UNK, x)]

    def capsule(self, vs, x, n):
        p = [v for v in vs if v.kind == 'ptr']
        if not p:
            return [(vs[0] if len(vs) == 1 and vs[0].kind == 'capsule' else Val('capsule'), x)]
        v = p[0]
        self.use(x, v, n)
        fs = [f for f in vs[1:] if f.kind == 'lam']
        if not fs:
            if len(vs) > 1 and any(f.kind in ('unk', 'bound') for f in vs[1:]):
                self.escape(x, v, 'capsule with an unknown deleter')
            return [(Val('capsule', None, None, frozenset([v.a])), x)]
        f = fs[0]
        status, form = x.heap.get(v.a, ('freed', ''))
        if status == 'owned':
            self.report('release', v.a, n, 'two capsules release the same memory')
            return [(Val('capsule', None, None, frozenset([v.a])), x)]
        y = x.clone()
        y.heap[v.a] = ('live', form)
        self.raised.append([])
        outs = self.invoke(f.a, [v], [y], None, f.b)
        self.raised.pop()
        rel_ = {z.heap.get(v.a, ('',))[0] for _, _, z in outs}
        if rel_ == {'freed'}:
            x.heap[v.a] = ('owned', form)
        elif 'escaped' in rel_ or not rel_:
            self.escape(x, v, 'capsule with an unknown deleter')
        elif rel_ == {'live'}:
            others = [a for a in x.heap if any(z.heap.get(a, ('',))[0] == 'freed' and x.heap[a][0] != 'freed' for _, _, z in outs)]
            for a in others:
                self.report('release', a, n, 'the capsule of another buffer releases it')
        return [(Val('capsule', None, None, frozenset([v.a])), x)]
