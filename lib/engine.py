"""Gated value-flow analysis.

Builds, for a function and everything it calls inside the repository, the value
number (terms.py) of every expression, the guarded list of its side effects
(stores into arrays/attributes, calls that leave the repository, raises) and the
facts that hold at each of them.  Branches are joined with if-then-else values
(gated SSA), loops are summarised by induction-variable recognition; there is no
path enumeration, no concrete input and no solver.
"""
import ast
import copy
import hashlib
import itertools
from fractions import Fraction
import terms as t
from terms import T, sym, const, num, app
from pyfront import Index, ClassInfo, Module, AnalysisError, rel

ALL = app('ALL')


# attributes documented as arrays
ARRAY_ATTRS = {'_waterfall', 'waterfall', 'dsprofiles', 'vself', 'phi0', 'omega_rev0', 'beta0', 'deltaE0', 'drift_coef', 'eta0',
               'e0', 'time_at_turn', 'vrf1_at_turn', 'vrf2_at_turn', 'coordinates_dphi', 'coordinates_denergy', '_xp', '_yp',
               'xp', 'yp', 'recreated', 'diff', 'weight', 'jmin', 'jmax', 'allbin_min', '_raw_data', '_vself'}


class Dead(Exception):
    pass


class Limit(AnalysisError):
    pass


_oid = itertools.count(1)


class V:
    __slots__ = ('term', 'oid', 'kind', 'tag', 'base', 'attrs', 'elems', 'cls', 'data', 'hint', 'path',
                 'itype')

    def __init__(self, term, kind='term', tag=None, base=None, attrs=None, elems=None, cls=None,
                 data=None, hint=None, path=None):
        self.term = term
        self.oid = next(_oid)
        self.kind = kind
        self.tag = tag
        self.base = base
        self.attrs = attrs
        self.elems = elems
        self.cls = cls
        self.data = data
        self.hint = hint
        self.path = path
        self.itype = False

    def roots(self):
        out = set()
        v = self
        n = 0
        while v is not None and n < 50:
            if v.tag:
                out.add(v.tag)
            if isinstance(v.base, list):
                for b in v.base:
                    out |= b.roots()
                break
            v = v.base
            n += 1
        return out

    def chain_oids(self):
        out = {self.oid}
        b = self.base
        if isinstance(b, list):
            for x in b:
                out |= x.chain_oids()
        elif b is not None:
            out |= b.chain_oids()
        return out

    def __repr__(self):
        if self.kind == 'seq':
            return 'seq%r' % (self.elems,)
        return 'V<%s %s%s>' % (self.kind, t.show(self.term), ' ' + str(self.tag) if self.tag else '')


def attr_of(base, a):
    """attribute of an object that a component left in the state `base`."""
    if base.op == 'ite':
        return t.ite(base.args[0], attr_of(base.args[1], a), attr_of(base.args[2], a))
    return app('attr:' + str(a), base)


def clone_v(v, memo):
    if v is None:
        return None
    if v.kind in ('func', 'class', 'mod', 'ext') and v.kind != 'func':
        return v
    r = memo.get(id(v))
    if r is not None:
        return r
    r = V.__new__(V)
    memo[id(v)] = r
    r.term = v.term
    r.oid = v.oid
    r.kind = v.kind
    r.tag = v.tag
    r.cls = v.cls
    r.hint = v.hint
    r.path = v.path
    r.itype = v.itype
    r.data = v.data
    if v.kind == 'func' and isinstance(v.data, tuple):
        node, closure, bound = v.data
        r.data = (node, clone_env(closure, memo), clone_v(bound, memo))
    elif v.kind == 'super':
        r.data = (clone_v(v.data[0], memo), v.data[1])
    r.base = [clone_v(b, memo) for b in v.base] if isinstance(v.base, list) else clone_v(v.base, memo)
    r.attrs = {k: clone_v(x, memo) for k, x in v.attrs.items()} if v.attrs is not None else None
    r.elems = [clone_v(x, memo) for x in v.elems] if v.elems is not None else None
    memo[('keep', id(v))] = v
    return r


class Env:
    __slots__ = ('vars', 'parent', 'mod', 'fn', 'cls', 'glob', 'nonl')

    def __init__(self, parent, mod, fn=None, cls=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.fn = fn
        self.cls = cls
        self.glob = set()
        self.nonl = set()


def clone_env(e, memo):
    if e is None:
        return None
    r = memo.get(id(e))
    if r is not None:
        return r
    r = Env(None, e.mod, e.fn, e.cls)
    r.glob = e.glob
    r.nonl = e.nonl
    memo[id(e)] = r
    memo[('keep', id(e))] = e
    r.parent = clone_env(e.parent, memo)
    for k, v in e.vars.items():
        r.vars[k] = clone_v(v, memo)
    return r


class State:
    def __init__(self):
        self.frames = []          # list of Env
        self.pc = ()              # tuple of literals
        self.extra = {}           # 'globals' written: (mod,name)->V ; 'pins' kept alive values

    def clone(self):
        memo = {}
        s = State()
        s.frames = [clone_env(e, memo) for e in self.frames]
        s.pc = self.pc
        s.extra = {k: clone_v(v, memo) for k, v in self.extra.items()}
        s._memo = memo
        return s

    def become(self, o):
        self.frames = o.frames
        self.pc = o.pc
        self.extra = o.extra

    def env(self):
        return self.frames[-1]


class Event:
    __slots__ = ('kind', 'name', 'args', 'kwargs', 'pc', 'loops', 'node', 'fn', 'data', 'file', 'stack',
                 'result', 'tries', 'guard', 'seq', 'terms', 'kwterms')

    def __init__(self, kind, name, args=(), kwargs=None, **kw):
        self.kind = kind
        self.name = name
        self.args = args
        self.kwargs = kwargs or {}
        self.data = {}
        self.result = None
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return '%s:%s (%s)' % (rel(self.file), self.line, self.fn)

    def __repr__(self):
        return '<%s %s %s @%s pc=%s%s>' % (self.kind, self.name, self.data or [a for a in self.args],
                                          self.line, [t.show(p) for p in self.pc],
                                          ' loops=%s' % (self.loops,) if self.loops else '')


class Loop:
    def __init__(self, k, kind, node):
        self.k = k
        self.kind = kind
        self.node = node
        self.N = None           # trip count term
        self.cond = None
        self.var = None         # term of loop variable
        self.iter = None
        self.omp = None
        self.mu = {}            # mu symbol -> (init term, next term)
        self.breaks = False
        self.decls = None
        self._colour = None

    @property
    def colour(self):
        """name-independent order of the loop-carried values (computed when first asked for)."""
        if self._colour is None:
            self._colour = colour(list(self.mu.items()), self.k)
        return self._colour

    def __repr__(self):
        return 'Loop(%s N=%s)' % (t.show(self.k), t.show(self.N) if self.N is not None else
                                  ('cond ' + t.show(self.cond) if self.cond is not None else '?'))


def colour(mu, k):
    import compare
    for seed in (11, 12, 13, 14):
        val = compare.Valuation(seed, 'pos')
        try:
            col = compare.refine(val, k, [[m] for m, _ in mu], [x[0] for _, x in mu], [x[1] for _, x in mu])
            break
        except (compare.Bad, OverflowError, ZeroDivisionError, ValueError):
            continue
    else:
        col = [hashlib.sha1(t.key(x[0]).encode()).hexdigest() for _, x in mu]
    return dict(zip([m for m, _ in mu], col))


def pc_extra(pc, base):
    return [p for p in pc[len(base):]] if pc[:len(base)] == base else [p for p in pc if p not in base]


def has_break(body):
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            if isinstance(x, (ast.For, ast.While)) and has_break(x.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(x, f, None) or []):
                return True
        for h in getattr(x, 'handlers', None) or []:
            if has_break(h.body):
                return True
    return False


def unbreak(body, flag):
    """statements with break replaced by setting a flag that guards what follows."""
    out = []
    for i, x in enumerate(body):
        if isinstance(x, ast.Break):
            a = ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(True))
            ast.copy_location(a, x)
            out.append(a)
            return out
        if not has_break([x]):
            out.append(x)
            continue
        y = copy.copy(x)
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(y, f, None):
                setattr(y, f, unbreak(getattr(y, f), flag))
        if getattr(y, 'handlers', None):
            hs = []
            for h in y.handlers:
                h = copy.copy(h)
                h.body = unbreak(h.body, flag)
                hs.append(h)
            y.handlers = hs
        out.append(y)
        rest = unbreak(body[i + 1:], flag)
        if rest:
            w = ast.If(ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load())), rest, [])
            ast.copy_location(w, rest[0])
            out.append(w)
        return out
    return out


class Engine:
    def __init__(self, idx, opaque=(), models=None, max_depth=14, inline=True, unroll=12):
        self.all_loops = []
        self.idx = idx
        self.trace = []
        self.recording = True
        self.opaque = set(opaque)
        self.models = dict(models or {})
        self.max_depth = max_depth
        self.typed = {}
        self.inline = inline
        self.unroll = unroll
        self.call_stack = []
        self.loop_stack = []
        self.guard = False          # inside of an atomic or critical section (native code)
        self.try_stack = []
        self.ret_stack = []
        self.brk_stack = []
        self.kcount = itertools.count(1)
        self.seq = itertools.count(1)
        self.steps = 0
        self.step_limit = 400000
        self.visited = set()
        self.notes = []
        self.attr_types = {}
        self.attr_init = {}
        self.cfuncs = None
        self.ext_prefix_models = []
        self.int_names = set()
        import extmodels
        self.ext = extmodels

    # ------------------------------------------------------------ helpers
    def emit(self, st, kind, name, node, args=(), kwargs=None, **data):
        e = Event(kind, name, args, kwargs)
        e.pc = st.pc
        e.loops = tuple(self.loop_stack)
        e.node = node
        env = st.frames[-1] if st.frames else None
        e.fn = self.call_stack[-1] if self.call_stack else '?'
        e.stack = tuple(self.call_stack)
        e.file = getattr(env.mod, 'path', '?') if env is not None and env.mod is not None else '?'
        cf = getattr(node, 'cfile', None)
        if cf:
            e.file = cf
        e.data = data
        e.guard = self.guard
        e.tries = tuple(id(x) for x in self.try_stack)
        e.seq = next(self.seq)
        e.terms = [self.vterm(a) if isinstance(a, V) else a for a in args]
        e.kwterms = {k: self.vterm(a) for k, a in (kwargs or {}).items()}
        if self.recording:
            self.trace.append(e)
        return e

    def fresh(self, st, term, hint=None, tag=None):
        return V(term, hint=hint, tag=tag)

    def opaque_v(self, name, hint=None):
        return V(sym(name), tag=name, hint=hint)

    def new_obj(self, cls, name, tag=None):
        return V(sym('obj:' + name), kind='obj', attrs={}, cls=cls, tag=tag or name, data={'path': name})

    def param(self, name, ann=None, mod=None, path=None):
        """symbolic parameter value from annotation."""
        path = path or name
        hint, cls = self.ann_info(ann, mod)
        if cls is not None:
            return self.new_obj(cls, path)
        isint = hint == 'int' or name in self.int_names
        return V(sym(path, isint), tag=path, hint=hint)

    def ann_info(self, ann, mod):
        if ann is None:
            return None, None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None, None
        s = ast.unparse(ann)
        if s in ('int',):
            return 'int', None
        if s in ('float', 'complex', 'Number'):
            return 'float', None
        if s in ('str',):
            return 'str', None
        if s in ('bool',):
            return 'bool', None
        if s.split('.')[-1] in ('ndarray', 'NDArray', 'ArrayLike') or 'ndarray' in s and '[' not in s:
            return 'arr', None
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split('.')[-1]
            if h in ('Optional',):
                return self.ann_info(ann.slice, mod)
            if h in ('List', 'list', 'Sequence'):
                return 'list', None
            if h in ('Tuple', 'tuple'):
                return 'tuple', None
            if h == 'Callable':
                return 'callable', None
            if h == 'Union' and isinstance(ann.slice, ast.Tuple):
                for el in ann.slice.elts:
                    i = self.ann_info(el, mod)
                    if i[1] is not None or i[0] == 'arr':
                        return i
            return None, None
        if mod is not None and isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.idx.resolve_expr(mod, ann)
            if r and r[0] == 'class':
                return None, r[1]
        return None, None

    # ------------------------------------------------------------ entry
    def run(self, fnode, args=None, self_v=None, cls=None, st=None, name=None):
        """analyse a function with symbolic parameters.  returns (state, value)."""
        if st is None:
            st = State()
            st.frames = [Env(None, fnode.mod)]
        args = dict(args or {})
        a = fnode.args
        pos, kw = [], {}
        names = [x for x in a.posonlyargs + a.args]
        bound = None
        deco = getattr(fnode, 'deco', [])
        if cls is None:
            cls = getattr(fnode, 'cls', None)
        if cls is not None and 'staticmethod' not in deco and names:
            first = names[0]
            names = names[1:]
            if self_v is None:
                if 'classmethod' in deco:
                    self_v = V(const('class:' + cls.name), kind='class', cls=cls)
                else:
                    self_v = self.new_obj(cls, 'self')
            bound = self_v
        for p in names + a.kwonlyargs:
            if p.arg in args:
                v = args[p.arg]
                kw[p.arg] = v if isinstance(v, V) else V(v, tag=p.arg)
            else:
                ann = p.annotation
                kw[p.arg] = self.param(p.arg, ann, fnode.mod)
        self.entry_params = dict(kw)
        if a.vararg:
            pass
        fv = V(const('fn:' + fnode.name), kind='func', data=(fnode, None, bound))
        try:
            r = self.call_func(fv, [], kw, st, fnode, entry=True, vararg=a.vararg, kwarg=a.kwarg)
        except Dead:
            return None, None
        return st, r

    # ------------------------------------------------------------ calls
    def pick_overload(self, node, nargs, kwn, vals):
        cands = []
        n = node
        while n is not None:
            cands.append(n)
            n = getattr(n, 'prev_def', None)
        if len(cands) == 1 or not any('dispatch' in getattr(c, 'deco', []) for c in cands):
            return node
        best = None
        for c in cands:
            names = [x.arg for x in c.args.posonlyargs + c.args.args]
            req = len(names) - len(c.args.defaults)
            if nargs > len(names) or nargs + len(kwn) < req:
                continue
            sc = 0
            disp = None
            for d in c.decorator_list:
                if isinstance(d, ast.Call):
                    disp = d.args
            if disp:
                for tp, v in zip(disp, vals):
                    s = ast.unparse(tp).split('.')[-1]
                    if v.kind == 'obj':
                        ok = v.cls is not None and (s == v.cls.name or s in v.cls.ancestors(self.idx))
                        sc += 3 if ok else -5
                    elif v.hint == 'arr':
                        sc += 2 if s == 'ndarray' else -2
                    elif v.hint in ('float', 'int'):
                        sc += 2 if s in ('Number', 'float', 'int') else -2
                    elif s == 'ndarray':
                        sc += 0
                if len(disp) != nargs:
                    sc -= 4
            if best is None or sc > best[0]:
                best = (sc, c)
        return best[1] if best else node

    def call_func(self, fv, args, kwargs, st, node, entry=False, vararg=None, kwarg=None):
        fnode, closure, bound = fv.data
        if isinstance(fnode, ast.Lambda):
            return self.call_lambda(fv, args, kwargs, st, node)
        if not entry:
            fnode = self.pick_overload(fnode, len(args) + (1 if bound is not None else 0), kwargs, args)
        qual = self.qual(fnode)
        if not entry:
            m = self.models.get(qual) or self.models.get(fnode.name if qual == fnode.name else None)
            if m is not None:
                return m(self, st, node, ([bound] if bound is not None else []) + args, kwargs)
            if qual in self.opaque or fnode.name in self.opaque or len(self.call_stack) >= self.max_depth \
                    or self.call_stack.count(qual) >= 2 or not self.inline:
                return self.opaque_call(qual, fnode, ([bound] if bound is not None else []) + args, kwargs, st,
                                        node)
        self.visited.add(qual)
        env = Env(closure, getattr(fnode, 'mod', None) or (closure.mod if closure else None), fnode.name,
                  getattr(fnode, 'cls', None))
        a = fnode.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = ([bound] if bound is not None else []) + list(args)
        kw = dict(kwargs)
        for n, v in zip(names, pos):
            env.vars[n] = v
        if len(pos) > len(names):
            if a.vararg:
                env.vars[a.vararg.arg] = V(app('tuple', *[x.term for x in pos[len(names):]]), kind='seq',
                                           elems=list(pos[len(names):]), data='tuple')
            else:
                self.emit(st, 'arity', qual, node, args)
        elif a.vararg:
            env.vars[a.vararg.arg] = (self.opaque_v('*' + a.vararg.arg) if entry else
                                      V(app('tuple'), kind='seq', elems=[], data='tuple'))
        for n in names[len(pos):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env.vars[n] = kw.pop(n)
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env.vars]
        dst = State()
        denv = Env(closure, env.mod, fnode.name, env.cls)
        for n in missing:
            if n in defs:
                st.frames.append(denv)
                try:
                    env.vars[n] = self.ev(defs[n], st)
                finally:
                    st.frames.remove(denv) if denv in st.frames else None
            else:
                self.emit(st, 'missing-arg', qual, node, data_name=n)
                env.vars[n] = self.opaque_v('missing:' + n)
        if a.kwarg:
            if entry or '**' in kw:
                env.vars[a.kwarg.arg] = self.opaque_v('**' + a.kwarg.arg)
            else:
                env.vars[a.kwarg.arg] = V(app('dict'), kind='dict',
                                          attrs={const(k): v for k, v in kw.items()})
        elif kw:
            extra = [k for k in kw if k != '**']
            if extra:
                self.emit(st, 'unexpected-kw', qual, node, names=extra)
        st.frames.append(env)
        depth = len(st.frames)
        self.call_stack.append(qual)
        entry_pc = st.pc
        rets = []
        self.ret_stack.append(rets)
        saved_brk = self.brk_stack
        self.brk_stack = []
        try:
            end = self.block(fnode.body, st)
        finally:
            self.ret_stack.pop()
            self.call_stack.pop()
            self.brk_stack = saved_brk
        if end is not None:
            rets.append((end, V(t.NONE)))
        if not rets:
            raise Dead()
        # fold the returns, last to first
        acc_st, acc_v = rets[-1]
        acc_st.extra['$ret'] = acc_v
        for rst, rv in reversed(rets[:-1]):
            rst.extra['$ret'] = rv
            ex = [p for p in pc_extra(rst.pc, entry_pc) if p not in acc_st.pc]
            cond = t.and_(*ex) if ex else t.TRUE
            if cond is t.TRUE:
                acc_st = rst
                continue
            acc_st = self.merge(rst, acc_st, cond, entry_pc)
        if getattr(fnode, 'ctypes', None) and any(getattr(x, 'ctype', '').rstrip().endswith('&') for x in a.args):
            cv = acc_st.frames[depth - 1].vars
            acc_st.extra['$refs'] = V(t.NONE, kind='pin', elems=[cv.get(x.arg) for x in a.args])
        acc_st.frames = acc_st.frames[:depth - 1]
        v = acc_st.extra.pop('$ret')
        st.become(acc_st)
        return v

    def call_lambda(self, fv, args, kwargs, st, node):
        fnode, closure, bound = fv.data
        env = Env(closure, closure.mod if closure else None, '<lambda>')
        names = [x.arg for x in fnode.args.args]
        for n, v in zip(names, args):
            env.vars[n] = v
        for n in names[len(args):]:
            if n in kwargs:
                env.vars[n] = kwargs[n]
            else:
                env.vars[n] = self.opaque_v(n)
        st.frames.append(env)
        try:
            return self.ev(fnode.body, st)
        finally:
            if env in st.frames:
                st.frames.remove(env)
            else:
                st.frames.pop()

    def qual(self, fnode):
        mod = getattr(fnode, 'mod', None)
        cls = getattr(fnode, 'cls', None)
        m = mod.name if mod is not None else ''
        if m.startswith('longitudinal_tomography.'):
            m = m[len('longitudinal_tomography.'):]
        return '.'.join(x for x in (m, cls.name if cls is not None else '', fnode.name) if x)

    def opaque_call(self, qual, fnode, args, kwargs, st, node):
        ts = [self.vterm(a) for a in args] + [app('kw:' + k, self.vterm(v)) for k, v in sorted(kwargs.items())
                                             if k != '**']
        r = V(app('call:' + qual, *ts))
        e = self.emit(st, 'call', qual, node, args, kwargs)
        e.result = r
        return r

    def vterm(self, v):
        if v.kind == 'seq':
            return app(v.data or 'tuple', *[self.vterm(x) for x in v.elems])
        return v.term

    # ------------------------------------------------------------ merging
    def merge(self, s1, s2, c, base_pc):
        """join two states; s1 holds under c, s2 under not c."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        memo = {}
        out = State()
        emem = {}
        for e1, e2 in zip(s1.frames, s2.frames):
            out.frames.append(self.merge_env(e1, e2, c, memo, emem))
        for k in set(s1.extra) | set(s2.extra):
            a, b = s1.extra.get(k), s2.extra.get(k)
            if a is None or b is None:
                a2 = a if a is not None else b
                out.extra[k] = a2
            else:
                out.extra[k] = self.merge_v(a, b, c, memo, emem)
        x1, x2 = pc_extra(s1.pc, base_pc), pc_extra(s2.pc, base_pc)
        facts = []
        for p in x1:
            if p in x2:
                facts.append(p)
        nc = t.not_(c)
        cl = t.literals(c)
        ncl = t.literals(nc)
        for p in x1:
            if p not in x2 and p not in cl and p is not c:
                q = t.or_(nc, p)
                if q is not t.TRUE and q not in facts:
                    facts.append(q)
        for p in x2:
            if p not in x1 and p not in ncl and p is not nc:
                q = t.or_(c, p)
                if q is not t.TRUE and q not in facts:
                    facts.append(q)
        out.pc = tuple(base_pc) + tuple(facts)
        return out

    def merge_env(self, e1, e2, c, memo, emem):
        if e1 is None or e2 is None:
            return e1 or e2
        k = (id(e1), id(e2))
        if k in emem:
            return emem[k]
        r = Env(None, e1.mod, e1.fn, e1.cls)
        r.glob = e1.glob
        r.nonl = e1.nonl
        emem[k] = r
        r.parent = self.merge_env(e1.parent, e2.parent, c, memo, emem) if (e1.parent and e2.parent) else e1.parent
        for n in list(e1.vars) + [x for x in e2.vars if x not in e1.vars]:
            a, b = e1.vars.get(n), e2.vars.get(n)
            if a is None or b is None:
                x = a if a is not None else b
                u = V(sym('unbound:'))
                r.vars[n] = self.merge_v(x, u, c, memo, emem) if a is not None else \
                    self.merge_v(u, x, c, memo, emem)
            else:
                r.vars[n] = self.merge_v(a, b, c, memo, emem)
        return r

    def merge_v(self, a, b, c, memo, emem):
        if a is b:
            return a
        k = (id(a), id(b))
        if k in memo:
            return memo[k]
        if a.kind == b.kind and (a.oid == b.oid or a.kind == 'obj' and a.cls is b.cls and self.lazy_path(a) is not None
                                 and self.lazy_path(a) == self.lazy_path(b)
                                 or a.kind == 'term' and a.term is b.term and a.term.op == 'sym' and a.tag
                                 and a.tag == b.tag and (a.attrs or b.attrs)):
            r = V.__new__(V)
            memo[k] = r
            r.oid, r.kind, r.tag, r.cls, r.hint, r.path = a.oid, a.kind, a.tag, a.cls, a.hint, a.path
            r.itype = a.itype and b.itype
            r.data = a.data
            if a.kind == 'func':
                n1, c1, b1 = a.data
                n2, c2, b2 = b.data
                r.data = (n1, self.merge_env(c1, c2, c, memo, emem),
                          self.merge_v(b1, b2, c, memo, emem) if b1 is not None and b2 is not None else b1)
            r.base = a.base
            if isinstance(a.base, V) and isinstance(b.base, V):
                r.base = self.merge_v(a.base, b.base, c, memo, emem)
            r.term = t.ite(c, a.term, b.term)
            r.attrs = None
            if a.attrs is not None or b.attrs is not None:
                r.attrs = {}
                aa, ba = a.attrs or {}, b.attrs or {}
                for n in list(aa) + [x for x in ba if x not in aa]:
                    x, y = aa.get(n), ba.get(n)
                    if x is None or y is None:
                        z = x if x is not None else y
                        o = self.default_attr(a if x is None else b, n)
                        if o is None:
                            r.attrs[n] = z
                        elif x is not None:
                            r.attrs[n] = self.merge_v(x, o, c, memo, emem)
                        else:
                            r.attrs[n] = self.merge_v(o, y, c, memo, emem)
                    else:
                        r.attrs[n] = self.merge_v(x, y, c, memo, emem)
            r.elems = None
            if a.elems is not None:
                if b.elems is not None and len(a.elems) == len(b.elems):
                    r.elems = [self.merge_v(x, y, c, memo, emem) for x, y in zip(a.elems, b.elems)]
                else:
                    r.kind = 'term'
                    r.term = t.ite(c, self.vterm(a), self.vterm(b))
            return r
        if a.kind == 'seq' and b.kind == 'seq' and len(a.elems) == len(b.elems) and a.data == b.data:
            r = V(t.NONE, kind='seq', data=a.data,
                  elems=[self.merge_v(x, y, c, memo, emem) for x, y in zip(a.elems, b.elems)])
            memo[k] = r
            r.term = self.vterm(r)
            return r
        ta, tb = self.vterm(a), self.vterm(b)
        r = V(t.ite(c, ta, tb), base=[a, b], hint=a.hint if a.hint == b.hint else (a.hint or b.hint))
        if a.kind == 'obj' and tb is t.NONE:
            r.data = ('maybe', a)
        if b.kind == 'obj' and ta is t.NONE:
            r.data = ('maybe', b)
        if {a.kind, b.kind} & {'func', 'ext'} :
            r.data = ('alt', c, a, b)
        memo[k] = r
        return r

    @staticmethod
    def lazy_path(o):
        """path of an input object first touched on demand."""
        d = o.data
        return d['path'] if isinstance(d, dict) and d.get('lazy', True) else None

    def default_attr(self, obj, name):
        """value an attribute has when only one branch touched it."""
        if obj.kind == 'obj' and '$base' in obj.attrs:
            return V(attr_of(obj.attrs['$base'].term, name), hint=self.attr_hint(name, name))
        if obj.kind == 'obj' and obj.data and obj.data.get('lazy', True):
            p = obj.data['path'] + '.' + str(name)
            ai = self.attr_init.get(p)
            if ai:
                return ai()
            cls = self.attr_types.get(p) or self.attr_types.get('*.' + str(name))
            if cls is None and obj.cls is not None and isinstance(name, str):
                cls = obj.cls.attr_class(self.idx, name)
            if cls is not None:
                return self.new_obj(cls, p)
            return V(sym(p, name in self.int_names), tag=p)
        if obj.kind == 'term' and obj.term.op == 'sym' and obj.tag:
            p = str(obj.term.args[0]) + '.' + str(name)
            return V(sym(p, name in self.int_names), tag=p)
        if obj.kind == 'dict':
            return V(app('missing', name if isinstance(name, T) else const(name)))
        return None

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            self.steps += 1
            if self.steps > self.step_limit:
                raise Limit('analysis step limit reached in %s' % (self.call_stack[-1:] or '?'))
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.notes.append('statement %s not modelled' % type(s).__name__)
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            d = a.name if a.asname else a.name.split('.')[0]
            st.env().vars[n] = self.resolved(self.idx.resolve_dotted(d), st, s)
        return st

    def s_ImportFrom(self, s, st):
        mod = st.env().mod
        base = mod._abs(s.level, s.module) if mod is not None else (s.module or '')
        for a in s.names:
            st.env().vars[a.asname or a.name] = self.resolved(self.idx.resolve_dotted(base + '.' + a.name), st, s)
        return st

    def s_Global(self, s, st):
        st.env().glob.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        st.env().nonl.update(s.names)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_FunctionDef(self, s, st):
        s.mod = st.env().mod
        s.cls = None
        st.env().vars[s.name] = V(const('fn:' + s.name), kind='func', data=(s, st.env(), None))
        return st

    def s_ClassDef(self, s, st):
        ci = ClassInfo(st.env().mod, s, s.name)
        for m in ast.walk(s):
            if isinstance(m, ast.FunctionDef):
                m.mod = st.env().mod
        st.env().vars[s.name] = V(const('class:' + s.name), kind='class', cls=ci)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else V(t.NONE)
        self.ret_stack[-1].append((st, v))
        return None

    def s_Delete(self, s, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                st.env().vars.pop(x.id, None)
            elif isinstance(x, ast.Attribute):
                o = self.ev(x.value, st)
                if o.kind == 'obj':
                    o.attrs.pop(x.attr, None)
            elif isinstance(x, ast.Subscript):
                o = self.ev(x.value, st)
                i = self.ev(x.slice, st)
                self.emit(st, 'delitem', 'del', s, [o, i])
        return st

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is t.TRUE:
            return st
        bad = st.clone()
        bad.pc = st.pc + (t.not_(c),)
        self.do_raise(bad, 'AssertionError', s, None)
        st.pc = st.pc + (c,)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for x in s.targets:
            self.assign(x, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(tg.id, ast.Load()), tg), st)
            cur, rhs = self.pinned(st, [cur], s.value)
            val = self.binop(s.op, cur, rhs, st, s)
            if self.is_array(cur):
                self.inplace(cur, ALL, val, st, s, op=type(s.op).__name__, rhs=rhs)
            else:
                self.set_name(tg.id, val, st)
            return st
        if isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st)
            pk = self.pin(st, [o])
            cur = self.getattr(o, self.mangle(tg.attr, st), st, tg)
            o, cur, rhs = self.pinned(st, self.unpin(st, pk) + [cur], s.value)
            val = self.binop(s.op, cur, rhs, st, s)
            if self.is_array(cur):
                self.inplace(cur, ALL, val, st, s, op=type(s.op).__name__, rhs=rhs)
                self.setattr(o, self.mangle(tg.attr, st), cur, st, s)
            else:
                self.setattr(o, self.mangle(tg.attr, st), val, st, s)
            return st
        if isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            i = self.ev(tg.slice, st)
            cur = self.subscript(o, i, st, tg)
            o, i, cur, rhs = self.pinned(st, [o, i, cur], s.value)
            val = self.binop(s.op, cur, rhs, st, s)
            self.store_sub(o, i, val, st, s, op=type(s.op).__name__, rhs=rhs)
            return st
        return st

    def pin(self, st, vs):
        pk = ('pin', next(_oid))
        st.extra[pk] = V(t.NONE, kind='pin', elems=list(vs))
        return pk

    def unpin(self, st, pk):
        return st.extra.pop(pk).elems

    def pinned(self, st, vs, expr):
        pk = self.pin(st, vs)
        r = self.ev(expr, st)
        return self.unpin(st, pk) + [r]

    def is_array(self, v):
        return v.hint == 'arr'

    def inplace(self, v, idx, val, st, node, op=None, rhs=None):
        """mutation of the array v (all or part of it)."""
        e = self.emit(st, 'store', 'store', node, [v, val], idx=idx, op=op, roots=v.roots(), val=val.term,
                      rhs=rhs.term if rhs is not None else None, target=v, path=self.vpath(v), old=v.term,
                      oids=v.chain_oids())
        self.update(v, idx, val.term)
        return e

    def vpath(self, v):
        """index path from the root array to v."""
        out = []
        while v is not None and isinstance(v.base, V) and v.path is not None:
            out.append(v.path)
            v = v.base
        return tuple(reversed(out))

    def update(self, v, idx, valterm):
        old = v.term
        if v.itype and not t.is_int(valterm) and not t._is_boolish(valterm):
            valterm = app('int', valterm)
        if idx is ALL:
            v.term = valterm
        elif old.op == 'app' and old.args[0] == 'upd' and old.args[2] is idx:
            v.term = app('upd', old.args[1], idx, valterm)
        else:
            v.term = app('upd', old, idx, valterm)
        b = v.base
        p = v.path
        seen = 0
        if isinstance(b, V):
            if p is not None:
                self.update(b, p, v.term)
            else:
                b.term = app('updview', b.term, v.term)
        elif isinstance(b, list):
            for x in b:
                x.term = app('updmaybe', x.term, v.term)

    def store_sub(self, o, i, val, st, node, op=None, rhs=None):
        if o.kind == 'seq' and o.data == 'list':
            n = t.numval(i.term)
            if n is not None and n.denominator == 1 and -len(o.elems) <= n < len(o.elems):
                o.elems[int(n)] = val
                o.term = self.vterm(o)
                self.emit(st, 'store', 'store', node, [o, val], idx=i.term, op=op, roots=o.roots(), val=val.term,
                          rhs=rhs.term if rhs is not None else None, target=o, path=self.vpath(o), old=o.term,
                          oids=o.chain_oids())
                return
        if o.kind == 'dict':
            o.attrs[i.term] = val
            self.emit(st, 'store', 'dictstore', node, [o, val], idx=i.term, op=op, roots=o.roots(), val=val.term,
                      rhs=None, target=o, path=(), old=o.term, oids=o.chain_oids())
            return
        it = self.vterm(i)
        e = self.emit(st, 'store', 'store', node, [o, val], idx=it, op=op, roots=o.roots(), val=self.vterm(val),
                      rhs=rhs.term if rhs is not None else None, target=o, path=self.vpath(o), old=o.term,
                      oids=o.chain_oids())
        if o.kind == 'seq':
            o.kind = 'term'
        if it.op == 'app' and it.args[0] == 'tuple' and len(it.args) > 2:
            # a[i, :] = v is a[i] = v
            p = list(it.args[1:])
            while len(p) > 1 and self.is_full_slice(p[-1]):
                p.pop()
            it = p[0] if len(p) == 1 else app('tuple', *p)
        it = self.ext.from_end(o.term, it)
        if self.is_full_slice(it):
            vt = self.vterm(val)
            b = o.term
            while b.op == 'app' and b.args[0] == 'upd':
                b = b.args[1]
            if (t.is_num(vt) or t.is_int(vt)) and b.op == 'app' and b.args[0] in ('zeros', 'ones', 'full', 'empty'):
                vt = app('zeros', b.args[1]) if vt is t.ZERO else app('full', b.args[1], vt)
            self.update(o, ALL, vt)
        elif it.op == 'same' or t._is_boolish(it) and it not in (t.TRUE, t.FALSE):
            # masked store a[mask] = v : elementwise conditional
            self.update(o, ALL, t.ite(it, self.vterm(val), o.term))
        else:
            self.update(o, it, self.vterm(val))

    @staticmethod
    def is_full_slice(it):
        return it.op == 'app' and it.args[0] == 'slice' and all(a is t.NONE for a in it.args[1:]) or it is ALL

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            self.set_name(tg.id, v, st)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st)
            self.setattr(o, self.mangle(tg.attr, st), v, st, node)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st)
            i = self.ev(tg.slice, st)
            self.store_sub(o, i, v, st, node)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if v.kind == 'seq' and not any(isinstance(x, ast.Starred) for x in tg.elts) \
                    and len(v.elems) == len(tg.elts):
                for x, y in zip(tg.elts, list(v.elems)):
                    self.assign(x, y, st, node)
            else:
                for k, x in enumerate(tg.elts):
                    if isinstance(x, ast.Starred):
                        x = x.value
                        self.assign(x, V(app('rest', self.vterm(v), num(k))), st, node)
                        continue
                    self.assign(x, self.subscript(v, V(num(k)), st, node), st, node)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, node)

    def set_name(self, n, v, st):
        env = st.env()
        if n in env.glob:
            self.emit(st, 'global', n, None, [v], mod=env.mod.name if env.mod else '')
            st.extra[('glob', env.mod.name, n)] = v
            return
        if n in env.nonl:
            e = env.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
        env.vars[n] = v

    def mangle(self, attr, st):
        if attr.startswith('__') and not attr.endswith('__'):
            e = st.env()
            while e is not None:
                if e.cls is not None:
                    return '_%s%s' % (e.cls.name.lstrip('_'), attr)
                e = e.parent
        return attr

    # -- control flow
    def cond(self, e, st):
        v = self.ev(e, st)
        return self.truth_v(v)

    def truth_v(self, v):
        if v.kind == 'seq':
            return t.TRUE if v.elems else t.FALSE
        if v.kind in ('obj', 'func', 'class', 'mod', 'ext'):
            return t.TRUE
        if v.kind == 'dict':
            return t.TRUE if v.attrs else t.mk('bool', v.term)
        if v.hint == 'str' and v.term.op == 'sym':
            return t.and_(t.not_(t.isnone(v.term)), t.not_(t.eq(v.term, const(''))))
        return t.truth(v.term)

    def decided(self, c, st):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        return t.cond_under(c, st.pc)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        d = self.decided(c, st)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        base = st.pc
        s2 = st.clone()
        st.pc = base + tuple(t.literals(c))
        s2.pc = base + tuple(t.literals(t.not_(c)))
        self.refine(s.test, st, True)
        self.refine(s.test, s2, False)
        r1 = self.block(s.body, st)
        r2 = self.block(s.orelse, s2)
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(r1, r2, c, base)

    def refine(self, test, st, pos):
        """if x is None: ... refinement of maybe-objects."""
        e = test
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, st, not pos)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = st.env().vars.get(e.left.id)
            isn = isinstance(e.ops[0], (ast.Is, ast.Eq)) == pos
            if v is not None and v.kind == 'term' and isinstance(v.data, tuple) and v.data[0] == 'maybe' and not isn:
                st.env().vars[e.left.id] = v.data[1]

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = st.extra.get('$exc')
            name = cur.data if cur is not None else 'Exception'
            self.do_raise(st, name, s, cur, reraise=True)
            return None
        name, v = self.exc_name(s.exc, st)
        self.do_raise(st, name, s, v)
        return None

    def exc_name(self, e, st):
        v = self.ev(e, st)
        if v.kind == 'class':
            return v.cls.name, v
        if v.kind == 'obj' and v.cls is not None:
            return v.cls.name, v
        if v.kind == 'ext':
            return v.data.split('.')[-1], v
        if v.term.op == 'app' and str(v.term.args[0]).startswith('ext:'):
            return v.term.args[0][4:].split('.')[-1], v
        if v.term.op == 'app' and str(v.term.args[0]).startswith('callv'):
            f = v.term.args[1]
            return t.show(f), v
        if v.term.op == 'app' and v.term.args[0] == 'exc':
            return v.data or 'Exception', v
        if isinstance(v.data, tuple) and v.data and v.data[0] == 'alt':
            return t.show(v.term), v
        return t.show(v.term), v

    def do_raise(self, st, name, node, v, reraise=False):
        e = self.emit(st, 'raise', name, node, [v] if v is not None else [], reraise=reraise, caught=False)
        for tr in reversed(self.try_stack):
            for h in tr['handlers']:
                if self.catches(h, name, tr):
                    s2 = st.clone()
                    s2.frames = s2.frames[:tr['depth']]
                    tr['pending'].append((h, s2, name))
                    e.data['caught'] = True
                    return
            if tr.get('final'):
                pass
        return

    BUILTIN_EXC = {
        'ValueError': ['Exception'], 'TypeError': ['Exception'], 'KeyError': ['LookupError', 'Exception'],
        'IndexError': ['LookupError', 'Exception'], 'AttributeError': ['Exception'],
        'RuntimeError': ['Exception'], 'AssertionError': ['Exception'], 'OSError': ['Exception'],
        'FileNotFoundError': ['OSError', 'Exception'], 'ImportError': ['Exception'],
        'ModuleNotFoundError': ['ImportError', 'Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
        'NotImplementedError': ['RuntimeError', 'Exception'], 'StopIteration': ['Exception'],
        'LinAlgError': ['ValueError', 'Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
        'runtime_error': ['exception'], 'logic_error': ['exception'], 'out_of_range': ['logic_error', 'exception'],
        'invalid_argument': ['logic_error', 'exception'], 'bad_alloc': ['exception'],
        'error_already_set': ['exception'],
    }

    def exc_ancestors(self, name):
        out = [name]
        for c in self.idx.all_classes() if self.idx else []:
            if c.name == name:
                for a in c.ancestors(self.idx):
                    a = a.split('.')[-1]
                    if a not in out:
                        out.append(a)
                    for b in self.BUILTIN_EXC.get(a, []):
                        if b not in out:
                            out.append(b)
                break
        else:
            out += self.BUILTIN_EXC.get(name, ['Exception', 'exception'])
        return out

    def catches(self, h, name, tr):
        if h.type is None:
            return True
        names = []
        ty = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for x in ty:
            names.append(ast.unparse(x).split('.')[-1])
        if 'BaseException' in names:
            return True
        anc = self.exc_ancestors(name)
        return any(n in anc for n in names)

    def s_Try(self, s, st):
        tr = {'handlers': s.handlers, 'pending': [], 'depth': len(st.frames), 'calls': [], 'node': s}
        base = st.pc
        start = st.clone()
        self.try_stack.append(tr)
        try:
            end = self.block(s.body, st)
        finally:
            self.try_stack.remove(tr)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        # pending explicit raises and implicit raises of opaque calls
        outs = []
        for h in s.handlers:
            sts = [(x, nm) for hh, x, nm in tr['pending'] if hh is h]
            for ps, nm in sts:
                outs.append((h, ps, nm))
            # implicit: any call in the body may raise what h catches
            imp = [c for c in tr['calls'] if True]
            if imp:
                name = ast.unparse(h.type).split('.')[-1] if h.type is not None and not isinstance(h.type, ast.Tuple) \
                    else 'Exception'
                cs, cterm = imp[-1]
                x = cs
                x = x.clone()
                x.frames = x.frames[:tr['depth']]
                if x.pc[:len(base)] != base:
                    x.pc = base
                x.pc = x.pc + (t.mk('raises', cterm, h.type is None or name if isinstance(name, str) else 'Exception'),)
                outs.append((h, x, name))
            elif not sts and self._may_raise_body(s.body):
                x = start.clone()
                x.pc = base + (t.mk('raises', app('try', num(getattr(s, 'lineno', 0))), 'x'),)
                name = ast.unparse(h.type).split('.')[-1] if h.type is not None and not isinstance(h.type, ast.Tuple) \
                    else 'Exception'
                outs.append((h, x, name))
        res = end
        for h, x, nm in outs:
            ev = V(app('exc', const(nm)), data=nm)
            if h.name:
                x.env().vars[h.name] = ev
            old = x.extra.get('$exc')
            x.extra['$exc'] = ev
            hp = x.pc
            r = self.block(h.body, x)
            if r is not None:
                if old is not None:
                    r.extra['$exc'] = old
                else:
                    r.extra.pop('$exc', None)
                if res is None:
                    res = r
                else:
                    ex = [p for p in pc_extra(r.pc, base) if p not in res.pc]
                    cond = t.and_(*ex) if ex else t.mk('raises', app('try', num(getattr(s, 'lineno', 0))), nm)
                    if cond is t.TRUE:
                        cond = t.mk('raises', app('try', num(getattr(s, 'lineno', 0))), nm)
                    res = self.merge(r, res, cond, base)
        if s.finalbody:
            if res is not None:
                res = self.block(s.finalbody, res)
            else:
                x = start.clone()
                self.block(s.finalbody, x)
        return res

    s_TryStar = s_Try

    def _may_raise_body(self, body):
        return any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.Import, ast.ImportFrom, ast.BinOp))
                   for s in body for n in ast.walk(s))

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, V(app('enter', self.vterm(v)), data=('enter', v)), st, s)
        return self.block(s.body, st)

    def s_Break(self, s, st):
        if self.brk_stack:
            self.brk_stack[-1]['break'].append(st)
        return None

    def s_Continue(self, s, st):
        if self.brk_stack:
            self.brk_stack[-1]['cont'].append(st)
        return None

    def s_Match(self, s, st):
        self.notes.append('match')
        return st

    # -- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        els = self.static_elems(it)
        if els is not None and len(els) <= (self.unroll if it.kind == 'iter' else 64):
            return self.unrolled(s, els, st)
        if has_break(s.body):
            return self.guarded(s, st, it)
        return self.loop(s, st, it)

    def guarded(self, s, st, it):
        """a loop left by break: the same loop that does nothing once a flag is set."""
        g = getattr(s, 'guarded', None)
        if g is None:
            flag = '$brk%d' % next(self.kcount)
            test = ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load()))
            body = unbreak(s.body, flag)
            # the loop variable keeps its value once the loop has been left
            tgt = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
            item = '$item' + flag
            first = ast.Assign([s.target], ast.Name(item, ast.Load()))
            n = ast.For(target=ast.Name(item, ast.Store()), iter=s.iter,
                        body=[ast.If(test, [first] + body, [])], orelse=[], type_comment=None)
            ast.copy_location(n, s)
            for y in ast.walk(n):
                if 'lineno' in getattr(y, '_attributes', ()) and not hasattr(y, 'lineno'):
                    ast.copy_location(y, s)
            after = None
            if s.orelse:
                after = ast.If(test, s.orelse, [])
                ast.copy_location(after, s)
                ast.fix_missing_locations(after)
            ast.fix_missing_locations(n)
            for at in ('inc', 'omp', 'cfile', 'decls'):
                if hasattr(s, at):
                    setattr(n, at, getattr(s, at))
            names = {y.id for y in ast.walk(ast.Module(s.body, [])) if isinstance(y, ast.Name)
                     and isinstance(y.ctx, ast.Store)} | set(tgt)
            g = s.guarded = (flag, n, after, names)
        flag, n, after, names = g
        env = st.env()
        env.vars[flag] = V(t.FALSE)
        for x in names:
            if x not in env.vars and x not in env.glob and x not in env.nonl:
                env.vars[x] = V(sym('unbound:'))
        out = self.loop(n, st, it)
        if out is not None and after is not None:
            out = self.stmt(after, out)
        return out

    def static_elems(self, it):
        if it.kind == 'seq':
            return it.elems
        if it.kind == 'dict':
            return [V(k) for k in it.attrs]
        if it.kind == 'iter' and it.data[0] == 'seq':
            return it.elems
        if it.kind == 'iter' and it.data[0] == 'range':
            lo, hi, stp = [t.numval(x) for x in it.data[1:4]]
            if None not in (lo, hi, stp) and stp != 0:
                r = range(int(lo), int(hi), int(stp))
                if len(r) <= self.unroll:
                    return [V(num(k)) for k in r]
        return None

    def unrolled(self, s, els, st):
        base = st.pc
        brk = {'break': [], 'cont': []}
        for x in els:
            self.assign(s.target, x, st, s)
            brk['cont'] = []
            self.brk_stack.append(brk)
            end = self.block(s.body, st)
            self.brk_stack.pop()
            st = self.join_list([end] + brk['cont'], base)
            if st is None:
                break
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        return self.join_list([st] + brk['break'], base)

    def join_list(self, sts, base):
        sts = [x for x in sts if x is not None]
        if not sts:
            return None
        acc = sts[0]
        for x in sts[1:]:
            ex = [p for p in pc_extra(x.pc, base) if p not in acc.pc]
            if not ex:
                continue
            acc = self.merge(x, acc, t.and_(*ex), base)
        return acc

    def s_While(self, s, st):
        # while True: if c: break  ->  while not c
        if isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and s.body \
                and isinstance(s.body[0], ast.If) and len(s.body[0].body) == 1 \
                and isinstance(s.body[0].body[0], ast.Break) and not s.body[0].orelse:
            n = ast.While(test=ast.UnaryOp(ast.Not(), s.body[0].test), body=s.body[1:] or [ast.Pass()], orelse=[])
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
            for at in ('inc', 'omp', 'cfile', 'decls'):
                if hasattr(s, at):
                    setattr(n, at, getattr(s, at))
            s = n
        return self.loop(s, st, None)

    def snapshot(self, st):
        """name/attr paths -> V for everything reachable from live frames."""
        out = {}
        seen = set()

        def visit(path, v, depth):
            if v is None or v.kind in ('mod', 'class', 'ext', 'super', 'iter'):
                return
            if v.kind != 'pin':
                out[path] = v
            if id(v) in seen or depth > 4:
                return
            seen.add(id(v))
            if v.attrs:
                for k, x in v.attrs.items():
                    visit(path + (('a', k),), x, depth + 1)
            if v.elems:
                for i, x in enumerate(v.elems):
                    visit(path + (('e', i),), x, depth + 1)
            if isinstance(v.base, V):
                visit(path + (('b', 0),), v.base, depth + 1)
            if v.kind == 'func' and isinstance(v.data, tuple):
                if v.data[2] is not None:
                    visit(path + (('s', 0),), v.data[2], depth + 1)
                if v.data[1] is not None and id(v.data[1]) not in seen:
                    seen.add(id(v.data[1]))
                    for n, x in v.data[1].vars.items():
                        visit(path + (('c', n),), x, depth + 1)
        for i, e in enumerate(st.frames):
            for n, v in e.vars.items():
                visit(((i, n),), v, 0)
        for k, v in st.extra.items():
            visit((('x', k),), v, 0)
        return out

    def loop(self, s, st, it):
        kn = next(self.kcount)
        k = sym('k%d' % kn, True)
        L = Loop(k, 'for' if it is not None else 'while', s)
        self.all_loops.append(L)
        L.omp = getattr(s, 'omp', None)
        L.tries = len(self.try_stack)
        L.decls = getattr(s, 'decls', None)
        base = st.pc
        if it is not None:
            L.iter = it
            L.N = self.iter_len(it)
        inc = getattr(s, 'inc', None)

        def one(state, record):
            """one symbolic iteration; returns (end state, cond term)."""
            rec = self.recording
            self.recording = record and rec
            brk = {'break': [], 'cont': []}
            self.loop_stack.append(L)
            self.brk_stack.append(brk)
            c = t.TRUE
            try:
                if it is not None:
                    item = self.iter_item(it, k, state)
                    self.assign(s.target, item, state, s)
                    L.var = self.vterm(item)
                else:
                    c = self.cond(s.test, state)
                    if c is not t.TRUE:
                        state.pc = state.pc + tuple(t.literals(c))
                inner = state.pc
                end = self.block(s.body, state)
                if brk['cont']:
                    end = self.join_list([end] + brk['cont'], inner)
                if end is not None and inc:
                    end = self.block(inc, end)
            except Dead:
                end = None
            finally:
                self.recording = rec
                self.loop_stack.pop()
                self.brk_stack.pop()
            L.breaks = bool(brk['break'])
            L.brk_states = brk['break']
            return end, c

        saved_try = [(tr, len(tr['pending']), len(tr['calls'])) for tr in self.try_stack]
        saved_rets = len(self.ret_stack[-1]) if self.ret_stack else 0

        def rollback():
            for tr, a, b in saved_try:
                del tr['pending'][a:]
                del tr['calls'][b:]
            if self.ret_stack:
                del self.ret_stack[-1][saved_rets:]

        before = self.snapshot(st)
        init = {p: (v.oid, self.vterm(v), v) for p, v in before.items()}
        induct = {}
        mus = {}
        widened = set()
        rebound = {}
        final_next = {}
        for rnd in range(6):
            trial = st.clone()
            snap = self.snapshot(trial)
            for p in widened:
                if rebound[p]:
                    self.rebind(trial, snap, p)
            for p in widened:
                self.set_mu(trial, snap, p, induct.get(p), mus.get(p), k)
            end, c = one(trial, False)
            rollback()
            if end is None:
                break
            after = self.snapshot(end)
            new = False
            final_next = {}
            for p, (oid, term, v0) in init.items():
                v1 = after.get(p)
                if v1 is None:
                    continue
                t1 = self.vterm(v1) if v1.kind != 'obj' else v1.term
                cur = snap.get(p)
                if p not in widened:
                    if (t1 is not term and v1.kind not in ('obj', 'dict')) or \
                            (v1.oid != oid and (v1.kind != v0.kind or v1.kind == 'obj')):
                        if p[-1][0] == 'b' and False:
                            continue
                        widened.add(p)
                        rebound[p] = v1.oid != oid and len(p) == 1
                        nm = 'mu%d:%s' % (kn, '.'.join(str(x[1]) if not isinstance(x[1], T) else t.show(x[1])
                                                       for x in p))
                        mus[p] = sym(nm, t.is_int(term) and t.is_int(t1) or self.intlike(v0))
                        if not rebound[p]:
                            for q in widened:
                                if q != p and not rebound[q] and init[q][2] is v0:
                                    mus[p] = mus[q]
                        new = True
                else:
                    final_next[p] = t1
                    if p in induct and induct[p] is not None:
                        want = t.add(induct[p][0], t.mul(induct[p][1], t.add(k, t.ONE)))
                        if not t.equal(t1, want):
                            induct[p] = None
                            new = True
                    elif p not in induct:
                        d = t.sub(t1, mus[p]) if t1.op in ('poly', 'sym', 'app', 'ite') else None
                        if d is not None and self.loop_invariant(d, k, mus.values()) and term.op != 'const' \
                                and t1.op != 'const':
                            induct[p] = (term, d)
                            new = True
                        else:
                            induct[p] = None
            if not new and rnd > 0:
                break
        # real iteration
        real = st.clone()
        snap = self.snapshot(real)
        for p in widened:
            if rebound[p]:
                self.rebind(real, snap, p)
        for p in widened:
            self.set_mu(real, snap, p, induct.get(p), mus.get(p), k)
        for p in widened:
            if induct.get(p) is None:
                L.mu[mus[p]] = (init[p][1], final_next.get(p))
        if it is None:
            # trip count from the loop condition
            probe = real.clone()
            rec = self.recording
            self.recording = False
            try:
                cc = self.cond(s.test, probe)
            except Dead:
                cc = t.TRUE
            self.recording = rec
            L.cond = cc
            L.N = self.trip_count(cc, k)
        # facts about k
        kf = [t.ge(k, t.ZERO)]
        if L.N is not None:
            kf.append(t.lt(k, L.N))
        real.pc = real.pc + tuple(f for f in kf if f is not t.TRUE)
        end, c = one(real, True)
        # exit state
        out = st.clone()
        snap = self.snapshot(out)
        asn = set()
        if end is not None:
            after = self.snapshot(end)
        else:
            after = {}
        for p in widened:
            if rebound[p]:
                self.rebind(out, snap, p)
        for p in widened:
            iv = induct.get(p)
            if iv is not None and L.N is not None and not L.breaks:
                if t.cond_under(t.lt(L.N, t.ZERO), out.pc) is None:
                    val = t.add(iv[0], t.mul(iv[1], self.nonneg_n(L.N, out.pc)))
                else:
                    val = iv[0]
            else:
                val = self.fold(init[p][1], mus[p], final_next.get(p), k, L, kn, p)
            self.set_val(out, snap, p, val, after.get(p))
        # names first assigned in the body
        if end is not None:
            for i, e in enumerate(out.frames):
                e2 = end.frames[i]
                for n, v in e2.vars.items():
                    if n not in e.vars:
                        e.vars[n] = self.last_value(clone_v(v, {}), k, L, kn)
            # objects that gained attributes
            for p, v in self.snapshot(out).items():
                w = after.get(p)
                if v.kind in ('obj',) and w is not None and w.kind == 'obj':
                    for a, x in w.attrs.items():
                        if a not in v.attrs:
                            d = V(app('loopval', x.term))
                            v.attrs[a] = clone_v(x, {})
        # exit condition
        facts = []
        if it is None and L.cond is not None and not L.breaks:
            ks = {m: self.exit_term(out, p) for p, m in mus.items() if induct.get(p) is None}
            facts = []
        out.pc = base + tuple(facts)
        if s.orelse:
            out2 = self.block(s.orelse, out)
        else:
            out2 = out
        # validation facts established on every iteration over a sequence are recorded as forall
        if end is not None and not L.breaks:
            ex = [p for p in pc_extra(end.pc, base) if p not in kf and p is not c]
            for p in ex:
                if k in t.syms(p) and out2 is not None and not any(m in t.syms(p) for m in mus.values()):
                    out2.pc = out2.pc + (t.mk('forall', k, p),)
                elif k not in t.syms(p) and not any(m in t.syms(p) for m in mus.values()) and out2 is not None \
                        and not (c is not t.TRUE and p in t.literals(c)):
                    # holds if the loop ran at least once
                    out2.pc = out2.pc + (t.mk('ifran', k, p),)
        return out2

    def last_value(self, v, k, L, kn):
        """what a name first bound inside of a loop holds after it."""
        if v.kind == 'seq':
            v.elems = [self.last_value(x, k, L, kn) for x in v.elems]
            v.term = self.vterm(v)
        elif v.kind == 'term' and L.N is not None and not L.breaks:
            ss = t.syms(v.term)
            if any(m in ss for m in L.mu):
                v.term = self.fold(sym('unbound:'), sym('mu%d:last' % kn), v.term, k, L, kn, None)
            elif k in ss:
                v.term = t.subst(v.term, {k: t.sub(L.N, t.ONE)})
        return v

    def exit_term(self, st, p):
        return None

    def nonneg_n(self, N, pc):
        return N

    def intlike(self, v):
        return v.hint == 'int' or t.is_int(v.term)

    def loop_invariant(self, d, k, mus):
        ss = t.syms(d)
        if k in ss:
            return False
        for m in mus:
            if m in ss:
                return False
        # reads of arrays that change inside the loop contain their mu symbol already
        return True

    def rebind(self, st, snap, p):
        """a name (not the object it held) changes in the loop: give it its own value."""
        v = snap.get(p)
        if v is None:
            return
        n = V(v.term, hint=v.hint, tag=None, data=v.data if isinstance(v.data, str) else None)
        if p[0][0] == 'x':
            if p[0][1] in st.extra and v.kind != 'pin':
                st.extra[p[0][1]] = n
        else:
            st.frames[p[0][0]].vars[p[0][1]] = n
        snap[p] = n

    def set_mu(self, st, snap, p, ind, mu, k):
        v = snap.get(p)
        if v is None:
            return
        if ind is not None:
            val = t.add(ind[0], t.mul(ind[1], k))
        else:
            val = mu
        self.put(v, val)

    def put(self, v, val):
        if v.kind in ('seq', 'dict', 'func'):
            v.kind = 'term'
            v.elems = None
        v.term = val

    def set_val(self, st, snap, p, val, after):
        v = snap.get(p)
        if v is None:
            return
        self.put(v, val)

    def fold(self, init, mu, nxt, k, L, kn, p):
        if nxt is None:
            return app('loopexit', init)
        N = L.N if L.N is not None else app('trip', L.cond if L.cond is not None else t.NONE)
        if L.breaks:
            N = app('break', N)
        if not L.breaks:
            f = self.fold_array(init, mu, nxt, k, L, N)
            if f is not None:
                return f
        if nxt.op in ('poly', 'sym', 'app'):
            d = t.sub(nxt, mu)
            if mu not in t.syms(d) and not any(m in t.syms(d) for m in L.mu if m is not mu):
                if d is t.ZERO:
                    return init
                kk, _ = t.binder(d)
                return t.add(init, t.bigsum(kk, t.subst(d, {k: kk}), N))
        elif nxt.op == 'ite' and not L.breaks:
            # conditional accumulation
            c, a, b = nxt.args
            if mu not in t.syms(c) and not any(m in t.syms(c) for m in L.mu):
                da, db = t.sub(a, mu), t.sub(b, mu)
                d = t.ite(c, da, db)
                if a.op in ('poly', 'sym', 'app') and b.op in ('poly', 'sym', 'app') and \
                        not any(m in t.syms(d) for m in L.mu) and mu not in t.syms(d):
                    kk, _ = t.binder(d)
                    return t.add(init, t.bigsum(kk, t.subst(d, {k: kk}), N))
        # other loop-carried values this one depends on
        dep, work = [mu], [mu]
        while work:
            m = work.pop()
            nx = L.mu.get(m, (None, nxt))[1] if m is not mu else nxt
            if nx is None:
                continue
            ss = t.syms(nx)
            for o in L.mu:
                if o in ss and o not in dep:
                    dep.append(o)
                    work.append(o)
        if len(dep) > 1 and all(L.mu[m][1] is not None for m in dep[1:]):
            # simultaneous recurrence, components in canonical order; this one first
            rest = sorted(dep[1:], key=lambda m: L.colour.get(m, '')) if len(dep) > 2 else dep[1:]
            order = [mu] + rest
            nx = [nxt] + [L.mu[m][1] for m in rest]
            kk, _ = t.binder(*nx)
            nm = str(kk.args[0])[2:]
            ren = {m: sym('$st%s_%d' % (nm, i), bool(m.args[1])) for i, m in enumerate(order)}
            ren[k] = kk
            return app('sfold', kk, N, app('tuple', init, *[L.mu[m][0] for m in rest]),
                       app('tuple', *[t.subst(x, ren) for x in nx]))
        sw = self.interchange(init, mu, nxt, k, N)
        if sw is not None:
            return sw
        kk, acc = t.binder(nxt)
        body = t.subst(nxt, {mu: acc, k: kk})
        return app('fold', kk, acc, init, body, N)

    @staticmethod
    def _upd_form(nxt, mu):
        """ite(c, upd(mu,i,v), mu) -> upd(mu, i, ite(c, v, mu[i]))."""
        if nxt.op == 'ite':
            c, a, b = nxt.args
            a = Engine._upd_form(a, mu) if a.op == 'ite' else a
            b = Engine._upd_form(b, mu) if b.op == 'ite' else b
            if a is None or b is None:
                return None
            ia = a.args[2] if a.op == 'app' and a.args[0] == 'upd' and a.args[1] is mu else None
            ib = b.args[2] if b.op == 'app' and b.args[0] == 'upd' and b.args[1] is mu else None
            if ia is not None and b is mu:
                return app('upd', mu, ia, t.ite(c, a.args[3], t.select(mu, ia)))
            if ib is not None and a is mu:
                return app('upd', mu, ib, t.ite(c, t.select(mu, ib), b.args[3]))
            if ia is not None and ia is ib:
                return app('upd', mu, ia, t.ite(c, a.args[3], b.args[3]))
            return None
        return nxt

    def fold_array(self, init, mu, nxt, k, L, N):
        """recognise element-wise maps and fixed-cell accumulations over an array."""
        nxt = self._upd_form(nxt, mu)
        if nxt is None or nxt.op != 'app' or nxt.args[0] != 'upd' or nxt.args[1] is not mu:
            return None
        i, val = nxt.args[2], nxt.args[3]
        if mu in t.syms(i) or any(m in t.syms(i) or m in t.syms(val) for m in L.mu if m is not mu):
            return None
        cell = t.select(mu, i)
        hole = sym('$cell')
        v2 = t.subst(val, {cell: hole})
        if i is k:
            if mu in t.syms(v2):
                return None
            b = t.subst(v2, {hole: t.select(init, k)})
            if init.op == 'app' and init.args[0] == 'uninit' and k not in t.syms(b) and t.equal(init.args[1], N):
                return app('full', init.args[1], b)
            kk, _ = t.binder(b)
            return app('amap', kk, init, t.subst(b, {k: kk}), N)
        if i.op == 'app' and i.args[0] == 'tuple' and len(i.args) == 3 and i.args[2] is k \
                and i.args[1] is t.app('slice', t.NONE, t.NONE, t.NONE):
            # f(k) added to every column: the row f(0), f(1).. added at once
            d = t.sub(v2, hole)
            if mu not in t.syms(d) and hole not in t.syms(d):
                return t.add(init, t.select(t.subst(d, {k: app('arange', N)}), t.NONE))
        if k not in t.syms(i):
            # the same cell on every iteration
            if mu in t.syms(v2):
                return None
            inner = self.fold(t.select(init, i), hole, v2, k, L, 0, None)
            # a row of a two dimensional array, itself mapped
            return app('upd', init, i, inner)
        return None

    def interchange(self, init, mu, nxt, k, N):
        """two nested loops that only add to cells of an array may run in either order: one of them is the normal form."""
        if not (nxt.op == 'app' and nxt.args[0] == 'fold' and nxt.args[3] is mu):
            return None
        k1, a1, _, b1, n1 = nxt.args[1:]
        if k in t.syms(n1) or mu in t.syms(n1) or mu in t.syms(b1) or t.key(n1) >= t.key(N):
            return None
        if not (b1.op == 'app' and b1.args[0] == 'upd' and b1.args[1] is a1) or a1 in t.syms(b1.args[2]):
            return None
        d = t.sub(b1.args[3], t.select(a1, b1.args[2]))
        if a1 in t.syms(d) or k1 in t.syms(N):
            return None
        f, g = sym('$inner', True), sym('$cells')
        b = t.subst(b1, {k1: f, a1: g})
        kk, ac = t.binder(b)
        inner = app('fold', kk, ac, mu, t.subst(b, {k: kk, g: ac}), N)
        kk, ac = t.binder(inner)
        return app('fold', kk, ac, init, t.subst(inner, {f: kk, mu: ac}), n1)

    def trip_count(self, c, k):
        """number of iterations for a condition that is one sign test, linear in k."""
        if c.op == 'le0':
            p = c.args[0]
            a = t.ZERO
            b = []
            coef = None
            for cf, m in t._monos(p):
                if any(x is k for x, e in m):
                    if len(m) == 1 and m[0][1] == 1:
                        coef = cf
                    else:
                        return None
                else:
                    if any(isinstance(x, T) and k in t.syms(x) for x, e in m):
                        return None
                    b.append(t._build({m: cf}))
            if coef is None or coef <= 0:
                return None
            rest = t.add(*b) if b else t.ZERO
            if any(str(s_.args[0]).startswith('mu') and s_.args[0].split(':')[0][2:].isdigit()
                   for s_ in t.syms(rest)) and False:
                return None
            if coef == 1:
                # rest + k <= 0  -> k in 0..-rest  => N = 1 - rest
                return t.sub(t.ONE, rest)
            return app('ceildiv', t.sub(num(coef), rest), num(coef)) if False else \
                t.add(t.ONE, t.floordiv(t.neg(rest), num(coef)))
        if c.op == 'lt0':
            p = c.args[0]
            coef = None
            b = []
            for cf, m in t._monos(p):
                if m == ((k, Fraction(1)),):
                    coef = cf
                else:
                    if k in t.syms(t._build({m: cf})):
                        return None
                    b.append(t._build({m: cf}))
            if coef == 1:
                return app('ceil', t.neg(t.add(*b) if b else t.ZERO))
        return None

    def loop_stack_dynamic(self):
        """inside a summarised (not unrolled) loop?"""
        return bool(self.loop_stack)

    def iter_len(self, it):
        if it.kind == 'iter':
            d = it.data
            if d[0] == 'range':
                lo, hi, st = d[1:4]
                if t.numval(st) == 1:
                    return t.sub(hi, lo)
                if t.numval(st) == -1:
                    return t.sub(lo, hi)
                return app('rangelen', lo, hi, st)
            if d[0] == 'enumerate':
                return self.iter_len(d[1])
            if d[0] == 'zip':
                return self.iter_len(d[1][0])
            if d[0] == 'reversed':
                return self.iter_len(d[1])
        if it.kind == 'seq':
            return num(len(it.elems))
        return self.ext.length(self, it)

    def iter_item(self, it, k, st):
        if it.kind == 'iter':
            d = it.data
            if d[0] == 'range':
                return V(t.add(d[1], t.mul(d[3], k)), hint='int')
            if d[0] == 'enumerate':
                return V(t.NONE, kind='seq', data='tuple',
                         elems=[V(t.add(d[2], k), hint='int'), self.iter_item(d[1], k, st)])
            if d[0] == 'zip':
                return V(t.NONE, kind='seq', data='tuple', elems=[self.iter_item(x, k, st) for x in d[1]])
            if d[0] == 'reversed':
                n = self.iter_len(d[1])
                return self.iter_item(d[1], t.sub(t.sub(n, t.ONE), k), st)
            if d[0] == 'items':
                return V(t.NONE, kind='seq', data='tuple',
                         elems=[V(app('key', d[1], k)), V(app('sel', d[1], app('key', d[1], k)))])
        if it.kind == 'seq':
            return V(app('sel', self.vterm(it), k), base=list(it.elems) or None)
        return self.subscript(it, V(k, hint='int'), st, None)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return V(app('expr', const(type(e).__name__)))
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return V(app('Ellipsis'))
        if isinstance(e.value, bool) or e.value is None or isinstance(e.value, str):
            return V(const(e.value), hint='str' if isinstance(e.value, str) else None)
        return V(const(e.value), hint='int' if isinstance(e.value, int) else 'float')

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, st)
                spec = ''
                if x.format_spec is not None:
                    sv = self.ev(x.format_spec, st)
                    spec = sv.term.args[1] if sv.term.op == 'const' else t.show(sv.term)
                parts.append(self.ext.fmt_term(self.vterm(v), self.ext.norm_spec(spec), ''))
            else:
                parts.append(const(x.value))
        return V(self.ext.str_concat(parts), hint='str')

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def lookup(self, n, st, node=None):
        env = st.env()
        if n in env.glob and ('glob', env.mod.name, n) in st.extra:
            return st.extra[('glob', env.mod.name, n)]
        x = env
        while x is not None:
            if n in x.vars and not (x is env and n in env.glob):
                v = x.vars[n]
                if v.kind == 'term' and v.term.op == 'sym' and str(v.term.args[0]).startswith('unbound:'):
                    self.emit(st, 'unbound', n, node)
                return v
            x = x.parent
        mod = env.mod
        if mod is not None:
            g = ('glob', mod.name, n)
            if g in st.extra:
                return st.extra[g]
            names = getattr(mod, 'names', {})
            if n in names:
                return self.resolved(self.idx.module_attr(mod, n), st, node)
        import builtins
        if hasattr(builtins, n) or n.startswith('__c'):
            return V(const('builtin:' + n), kind='ext', data='builtins.' + n)
        return V(sym('unknown:' + n), kind='ext', data='unknown.' + n)

    def resolved(self, r, st, node):
        if r[0] == 'func':
            return V(const('fn:' + r[1].name), kind='func', data=(r[1], None, None))
        if r[0] == 'class':
            return V(const('class:' + r[1].name), kind='class', cls=r[1])
        if r[0] == 'mod':
            return V(const('mod:' + r[1].name), kind='mod', data=r[1])
        if r[0] == 'ext':
            return self.ext_value(r[1])
        if r[0] == 'assign':
            key_ = ('asg', id(r[1]))
            if key_ in st.extra:
                return st.extra[key_]
            # module level constant
            env = Env(None, r[2])
            st.frames.append(env)
            try:
                v = self.ev(r[1], st)
            except Dead:
                v = V(app('modconst'))
            finally:
                if env in st.frames:
                    st.frames.remove(env)
                else:
                    st.frames.pop()
            return v
        return V(app('unresolved'))

    def ext_value(self, dotted):
        c = self.ext.constant(dotted)
        if c is not None:
            return V(c, hint='float')
        if dotted in self.ext_consts:
            return V(self.ext_consts[dotted])
        return V(const('ext:' + dotted), kind='ext', data=dotted)

    ext_consts = {}

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, self.mangle(e.attr, st), st, e)

    def getattr(self, o, a, st, node):
        if o.kind == 'mod':
            mod = o.data
            g = ('glob', mod.name, a)
            if g in st.extra:
                return st.extra[g]
            return self.resolved(self.idx.module_attr(mod, a), st, node)
        if o.kind == 'ext':
            return self.ext_value(o.data + '.' + a)
        if o.kind == 'obj':
            if a == '__class__':
                return V(const('class:' + (o.cls.name if o.cls else '?')), kind='class', cls=o.cls)
            g = None
            if o.cls is not None:
                g, c = o.cls.find(self.idx, 'getters', a)
                if g is not None:
                    fv = V(const('fn:' + a), kind='func', data=(g, None, o))
                    return self.call_func(fv, [], {}, st, node)
            if a in o.attrs:
                return o.attrs[a]
            if o.cls is not None:
                m, c = o.cls.find(self.idx, 'methods', a)
                if m is not None:
                    deco = getattr(m, 'deco', [])
                    if 'staticmethod' in deco:
                        return V(const('fn:' + a), kind='func', data=(m, None, None))
                    if 'classmethod' in deco:
                        return V(const('fn:' + a), kind='func',
                                 data=(m, None, V(const('class:' + o.cls.name), kind='class', cls=o.cls)))
                    return V(const('fn:' + a), kind='func', data=(m, None, o))
                x, c = o.cls.find(self.idx, 'attrs', a)
                if x is not None and not (o.data or {}).get('lazy', True):
                    return self.resolved(('assign', x, c.mod), st, node)
            if '$base' in o.attrs:
                o.attrs[a] = V(attr_of(o.attrs['$base'].term, a), hint=self.attr_hint(a, a))
                return o.attrs[a]
            p = o.data['path'] + '.' + a
            cls = self.attr_types.get(p) or self.attr_types.get('*.' + a)
            if cls is None and o.cls is not None:
                cls = o.cls.attr_class(self.idx, a)
            if p in self.attr_init:
                v = self.attr_init[p]()
            elif cls is not None:
                v = self.new_obj(cls, p)
            else:
                v = V(sym(p, a in self.int_names), tag=p, hint=self.attr_hint(p, a))
            o.attrs[a] = v
            return v
        if o.kind == 'class':
            m, c = o.cls.find(self.idx, 'methods', a)
            if m is not None:
                deco = getattr(m, 'deco', [])
                if 'classmethod' in deco:
                    return V(const('fn:' + a), kind='func', data=(m, None, o))
                return V(const('fn:' + a), kind='func', data=(m, None, None))
            g = ('cls', o.cls.qual, a)
            if g in st.extra:
                return st.extra[g]
            if a == '__name__':
                return V(const(o.cls.name))
            x, c = o.cls.find(self.idx, 'attrs', a)
            if x is not None and not getattr(self, 'class_attrs_symbolic', True):
                return self.resolved(('assign', x, c.mod), st, node)
            return V(sym('%s.%s' % (o.cls.name, a)), tag='%s.%s' % (o.cls.name, a))
        if o.kind == 'super':
            obj, cls = o.data
            mro = obj.cls.mro(self.idx)
            i = mro.index(cls) + 1 if cls in mro else 0
            for c in mro[i:]:
                for tab in ('getters', 'methods'):
                    if a in getattr(c, tab):
                        fn = getattr(c, tab)[a]
                        fv = V(const('fn:' + a), kind='func', data=(fn, None, obj))
                        if tab == 'getters':
                            return self.call_func(fv, [], {}, st, node)
                        return fv
            return V(const('ext:super.' + a), kind='ext', data='super.' + a)
        if isinstance(o.data, tuple) and o.data and o.data[0] == 'maybe':
            return self.getattr(o.data[1], a, st, node)
        if o.kind == 'dict' or o.kind == 'seq' or o.kind == 'iter':
            return V(const('meth:' + a), kind='bmeth', data=(o, a))
        return self.ext.attribute(self, o, a, st, node)

    def attr_hint(self, p, a):
        return 'arr' if a in ARRAY_ATTRS else None

    def setattr(self, o, a, v, st, node):
        if o.kind == 'obj':
            if o.cls is not None:
                sfn, c = o.cls.find(self.idx, 'setters', a)
                if sfn is not None:
                    fv = V(const('fn:' + a), kind='func', data=(sfn, None, o))
                    self.call_func(fv, [v], {}, st, node)
                    return
            o.attrs[a] = v
            self.emit(st, 'setattr', a, node, [o, v], path=o.data['path'] + '.' + a, obj=o)
            return
        if o.kind == 'class':
            st.extra[('cls', o.cls.qual, a)] = v
            self.emit(st, 'setattr', a, node, [o, v], path='%s.%s' % (o.cls.name, a), obj=o)
            return
        if isinstance(o.data, tuple) and o.data and o.data[0] == 'maybe':
            return self.setattr(o.data[1], a, v, st, node)
        self.emit(st, 'setattr', a, node, [o, v], path=t.show(o.term) + '.' + a, obj=o)
        if o.kind == 'term' and o.term.op == 'sym' and o.tag and a not in ('shape', 'dtype', 'flat', 'real', 'imag'):
            if o.attrs is None:
                o.attrs = {}
            o.attrs[a] = v
            return
        if a == 'shape' and o.kind == 'term':
            self.update(o, ALL, app('reshape', o.term, self.vterm(v)))

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        return self.subscript(o, i, st, e)

    def subscript(self, o, i, st, node):
        return self.ext.subscript(self, o, i, st, node)

    def e_Slice(self, e, st):
        p = [self.vterm(self.ev(x, st)) if x is not None else t.NONE for x in (e.lower, e.upper, e.step)]
        if t.numval(p[2]) == 1:
            p[2] = t.NONE
        if t.numval(p[0]) == 0 and (p[2] is t.NONE):
            p[0] = t.NONE
        return V(app('slice', *p), kind='term', hint='slice')

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return self.mkseq(e.elts, st, 'tuple')

    def e_List(self, e, st):
        return self.mkseq(e.elts, st, 'list')

    def e_Set(self, e, st):
        return self.mkseq(e.elts, st, 'set')

    def mkseq(self, elts, st, kind):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                els = self.static_elems(v)
                if els is None:
                    return V(app('starseq', self.vterm(v)))
                out.extend(els)
            else:
                out.append(self.ev(x, st))
        r = V(t.NONE, kind='seq', elems=out, data=kind)
        r.term = self.vterm(r)
        return r

    def e_Dict(self, e, st):
        r = V(app('dict', const(str(next(_oid)))), kind='dict', attrs={})
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                if vv.kind == 'dict':
                    r.attrs.update(vv.attrs)
                continue
            kk = self.ev(k, st)
            r.attrs[self.vterm(kk)] = vv
        return r

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return V(const('lambda'), kind='func', data=(e, st.env(), None))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        d = self.decided(c, st)
        if d is True:
            return self.ev(e.body, st)
        if d is False:
            return self.ev(e.orelse, st)
        base = st.pc
        s2 = st.clone()
        st.pc = base + tuple(t.literals(c))
        s2.pc = base + tuple(t.literals(t.not_(c)))
        try:
            a = self.ev(e.body, st)
        except Dead:
            b = self.ev(e.orelse, s2)
            st.become(s2)
            return b
        try:
            b = self.ev(e.orelse, s2)
        except Dead:
            return a
        st.extra['$t'] = a
        s2.extra['$t'] = b
        m = self.merge(st, s2, c, base)
        v = m.extra.pop('$t')
        st.become(m)
        return v

    def e_BoolOp(self, e, st):
        base = st.pc
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = []
        boolish = True
        for x in e.values:
            v = self.ev(x, st)
            b = self.truth_v(v)
            vals.append((v, b))
            if not t._is_boolish(v.term) or v.kind != 'term':
                boolish = False
            cur.append(b if isand else t.not_(b))
            if b is (t.FALSE if isand else t.TRUE):
                break
            dd = t.cond_under(b, st.pc)
            if dd is (False if isand else True):
                break
            st.pc = st.pc + tuple(t.literals(cur[-1]))
        st.pc = base
        if boolish or True:
            f = t.and_ if isand else t.or_
            bt = f(*[b for v, b in vals])
        if boolish:
            return V(bt)
        # value semantics:  a or b -> ite(a, a, b)
        acc = vals[-1][0]
        for v, b in reversed(vals[:-1]):
            cnd = b
            if isand:
                acc = self.merge_v(acc, v, cnd, {}, {}) if cnd not in (t.TRUE, t.FALSE) else (
                    acc if cnd is t.TRUE else v)
            else:
                acc = self.merge_v(v, acc, cnd, {}, {}) if cnd not in (t.TRUE, t.FALSE) else (
                    v if cnd is t.TRUE else acc)
        return acc

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return V(t.not_(self.cond(e.operand, st)))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return V(t.neg(self.vterm(v)), hint=v.hint)
        if isinstance(e.op, ast.Invert):
            if t._is_boolish(v.term):
                return V(t.not_(v.term), hint=v.hint)
            return V(app('invert', self.vterm(v)), hint=v.hint)
        return v

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        return self.ext.binop(self, op, a, b, st, node)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        c = t.and_(*out)
        return V(c, hint=None)

    def compare(self, op, a, b, st):
        x, y = self.vterm(a), self.vterm(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if y is t.NONE or x is t.NONE:
                v = a if y is t.NONE else b
                if v.kind in ('obj', 'func', 'class', 'mod', 'ext', 'seq', 'dict'):
                    r = t.FALSE
                else:
                    r = t.isnone(v.term)
            elif y in (t.TRUE, t.FALSE):
                r = t.eq(x, y)
            else:
                r = t.eq(x, y)
            return r if isinstance(op, ast.Is) else t.not_(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a.kind == 'seq' and b.kind == 'seq' and len(a.elems) == len(b.elems):
                r = t.and_(*[self.compare(ast.Eq(), p, q, st) for p, q in zip(a.elems, b.elems)])
            elif y is t.NONE or x is t.NONE:
                r = t.isnone(x if y is t.NONE else y)
            else:
                r = t.eq(x, y)
            return r if isinstance(op, ast.Eq) else t.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.kind == 'seq':
                r = t.or_(*[t.eq(x, self.vterm(q)) for q in b.elems])
            elif b.kind == 'dict':
                r = t.or_(*[t.eq(x, q) for q in b.attrs])
            elif b.kind == 'iter' and b.data[0] == 'range':
                r = t.and_(t.le(b.data[1], x), t.lt(x, b.data[2]))
            else:
                r = t.mk('in', x, y)
            return r if isinstance(op, ast.In) else t.not_(r)
        f = {ast.Lt: t.lt, ast.LtE: t.le, ast.Gt: t.gt, ast.GtE: t.ge}[type(op)]
        return f(x, y)

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env().vars:
            env = st.env()
            selfname = None
            if e.args:
                obj = self.ev(e.args[1], st)
                c = self.ev(e.args[0], st)
                return V(const('super'), kind='super', data=(obj, c.cls))
            fn = env.fn
            obj = None
            for n, v in env.vars.items():
                obj = v
                break
            return V(const('super'), kind='super', data=(obj, env.cls))
        f = self.ev(e.func, st)
        pk = ('pin', next(_oid))
        st.extra[pk] = V(t.NONE, kind='pin', elems=[f])

        def push(v):
            st.extra[pk].elems.append(v)
        names = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                els = self.static_elems(v)
                if els is None:
                    push(V(app('star', self.vterm(v))))
                    names.append(None)
                else:
                    for y in els:
                        push(y)
                        names.append(None)
            else:
                push(self.ev(x, st))
                names.append(None)
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.kind == 'dict':
                    for kk, vv in v.attrs.items():
                        if kk.op == 'const':
                            push(vv)
                            names.append(kk.args[1])
                else:
                    push(v)
                    names.append('**')
            else:
                push(v)
                names.append(k.arg)
        els = st.extra.pop(pk).elems
        f = els[0]
        args = [v for v, n in zip(els[1:], names) if n is None]
        kwargs = {n: v for v, n in zip(els[1:], names) if n is not None}
        return self.call(f, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node):
        if f.kind == 'func':
            n0 = f.data[0]
            if not isinstance(n0, ast.Lambda):
                q = self.qual(n0)
                h = self.models.get(q)
                if h is not None:
                    bound = f.data[2]
                    return h(self, st, node, ([bound] if bound is not None else []) + args, kwargs)
            return self.call_func(f, args, kwargs, st, node)
        if f.kind == 'class':
            return self.instantiate(f.cls, args, kwargs, st, node)
        if f.kind == 'bmeth':
            return self.ext.builtin_method(self, f.data[0], f.data[1], args, kwargs, st, node)
        if f.kind == 'ext':
            return self.ext.call(self, f.data, args, kwargs, st, node)
        if isinstance(f.data, tuple) and f.data and f.data[0] == 'alt':
            _, c, a, b = f.data
            d = self.decided(c, st)
            if d is not None:
                return self.call(a if d else b, args, kwargs, st, node)
            if len(f.base or ()) == 2 and {a.kind, b.kind} <= {'func', 'ext'}:
                return self.call_alt(c, f, args, kwargs, st, node)
        if f.kind == 'obj' and f.cls is not None:
            m, _ = f.cls.find(self.idx, 'methods', '__call__')
            if m is not None:
                return self.call_func(V(const('fn:__call__'), kind='func', data=(m, None, f)), args, kwargs, st,
                                      node)
        # unknown callable value (callback)
        e = self.emit(st, 'callv', t.show(f.term), node, args, kwargs, func=f)
        log = st.extra.get('$log')
        if log is not None and f.term.op == 'sym':
            log.term = app('log', log.term, f.term, *[self.vterm(a) for a in args])
        r = V(app('callv', f.term, *[self.vterm(a) for a in args]))
        e.result = r
        self.note_call(st, r.term)
        return r

    def call_alt(self, c, f, args, kwargs, st, node):
        """call of one of two functions: both outcomes, joined."""
        base = st.pc
        pk = ('pin', next(_oid))
        names = list(kwargs)
        st.extra[pk] = V(t.NONE, kind='pin', elems=[f] + list(args) + [kwargs[n] for n in names])
        s2 = st.clone()
        outs = []
        for s, cc, i in ((st, c, 0), (s2, t.not_(c), 1)):
            els = s.extra.pop(pk).elems
            s.pc = base + tuple(t.literals(cc))
            try:
                r = self.call(els[0].base[i], els[1:1 + len(args)], dict(zip(names, els[1 + len(args):])), s, node)
                s.extra['$t'] = r
                outs.append(s)
            except Dead:
                outs.append(None)
        if outs[0] is None and outs[1] is None:
            raise Dead()
        if outs[0] is None or outs[1] is None:
            o = outs[0] or outs[1]
            r = o.extra.pop('$t')
            if o is not st:
                st.become(o)
            return r
        m = self.merge(st, s2, c, base)
        v = m.extra.pop('$t')
        st.become(m)
        return v

    def note_call(self, st, term):
        """an operation that may raise inside enclosing try blocks."""
        if self.try_stack:
            self.try_stack[-1]['calls'].append((st.clone(), term))

    def instantiate(self, cls, args, kwargs, st, node):
        m = self.models.get('new:' + cls.name)
        if m is not None:
            return m(self, st, node, args, kwargs)
        anc = cls.ancestors(self.idx)
        if any(a.split('.')[-1] in ('Exception', 'TomoException') or a.endswith('Error') for a in anc) \
                or cls.name.endswith('Exception'):
            o = V(app('exc', const(cls.name)), kind='obj', attrs={}, cls=cls, data={'path': 'exc', 'lazy': True})
            return o
        o = V(sym('new:%s#%d' % (cls.name, next(self.kcount))), kind='obj', attrs={}, cls=cls,
              data={'path': 'new:' + cls.name, 'lazy': False})
        o.term = app('new:' + cls.name, *[self.vterm(a) for a in args])
        init, c = cls.find(self.idx, 'methods', '__init__')
        if 'Enum' in [a.split('.')[-1] for a in anc]:
            return o
        self.emit(st, 'new', cls.name, node, args, kwargs)
        if init is not None:
            fv = V(const('fn:__init__'), kind='func', data=(init, None, o))
            memo_oid = o.oid
            st.extra[('new', o.oid)] = o
            self.call_func(fv, args, kwargs, st, node)
            o = st.extra.pop(('new', memo_oid), o)
        return o

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, e.elt, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, e.elt, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, e.elt, st, 'set')

    def e_DictComp(self, e, st):
        g = e.generators[0]
        it = self.ev(g.iter, st)
        els = self.static_elems(it)
        if els is not None and len(e.generators) == 1 and not g.ifs:
            r = V(app('dict', const(str(next(_oid)))), kind='dict', attrs={})
            env = Env(st.env(), st.env().mod, st.env().fn)
            st.frames.append(env)
            for x in els:
                self.assign(g.target, x, st, e)
                r.attrs[self.vterm(self.ev(e.key, st))] = self.ev(e.value, st)
            st.frames.pop()
            return r
        return V(app('dictcomp'))

    def comp(self, e, elt, st, kind):
        g = e.generators[0]
        it = self.ev(g.iter, st)
        els = self.static_elems(it)
        env = Env(st.env(), st.env().mod, st.env().fn)
        env.cls = st.env().cls
        st.frames.append(env)
        depth = len(st.frames)
        try:
            if els is not None and len(els) <= self.unroll and len(e.generators) == 1:
                out = []
                okay = True
                for x in els:
                    self.assign(g.target, x, st, e)
                    conds = [self.cond(c, st) for c in g.ifs]
                    cc = t.and_(*conds) if conds else t.TRUE
                    d = self.decided(cc, st)
                    if d is False:
                        continue
                    if d is None:
                        okay = False
                    out.append(self.ev(elt, st))
                if okay:
                    r = V(t.NONE, kind='seq', elems=out, data=kind)
                    r.term = self.vterm(r)
                    return r
                return V(app('filtered', *[self.vterm(x) for x in out]))
            k = sym('c%d' % next(self.kcount), True)
            L = Loop(k, 'comp', e)
            L.N = self.iter_len(it)
            self.loop_stack.append(L)
            base = st.pc
            try:
                self.assign(g.target, self.iter_item(it, k, st), st, e)
                conds = [self.cond(c, st) for c in g.ifs]
                st.pc = base + tuple(x for c in conds for x in t.literals(c))
                for g2 in e.generators[1:]:
                    it2 = self.ev(g2.iter, st)
                    k2 = sym('c%d' % next(self.kcount), True)
                    self.assign(g2.target, self.iter_item(it2, k2, st), st, e)
                v = self.ev(elt, st)
                st.pc = base
            finally:
                self.loop_stack.pop()
            vt = self.vterm(v)
            N = L.N if L.N is not None else app('lenof', self.vterm(it))
            # identity comprehension over a sequence
            cnd = t.and_(*conds) if conds else t.TRUE
            kk, _ = t.binder(vt, cnd)
            body = t.subst(vt, {k: kk})
            if conds:
                return V(app('mapif', kk, body, t.subst(cnd, {k: kk}), N), hint=None)
            return V(app('map', kk, body, N), hint=None)
        finally:
            while len(st.frames) >= depth:
                st.frames.pop()

    def e_Yield(self, e, st):
        return V(app('yield'))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)
