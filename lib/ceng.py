"""value-flow analysis of the native sources (C++ and CUDA), on top of engine.Engine."""
import ast
import terms as t
from terms import sym, const, num, app
from engine import Engine, V, Event, ALL, Dead, State, Env
from pyfront import AnalysisError
import extmodels

INTS = ('int', 'long', 'bool', 'size_t', 'unsigned int', 'long long', 'unsigned long', 'short', 'char',
        'ssize_t', 'int32_t', 'int64_t', 'uint32_t')


def bare(ct):
    ct = ct.replace('const', ' ').replace('volatile', ' ').replace('__restrict', ' ').replace('&', ' ')
    return ' '.join(ct.split())


def is_int_ct(ct):
    return bare(ct) in INTS


def is_ptr_ct(ct):
    b = bare(ct)
    return b.endswith('*') or b.endswith(']')


MATHF = {'sinf': 'sin', 'cosf': 'cos', 'sqrtf': 'sqrt', 'fast_sin': 'sin', 'fast_sinf': 'sin', 'fast_cos': 'cos',
         'fast_cosf': 'cos', 'powf': 'pow', 'fabs': 'abs', 'fabsf': 'abs', '__sinf': 'sin', '__cosf': 'cos',
         'floorf': 'floor', 'ceilf': 'ceil', 'fmaxf': 'fmax', 'fminf': 'fmin'}


class CEngine(Engine):
    def __init__(self, idx, native, real='double', **kw):
        super().__init__(idx, **kw)
        self.native = native
        self.real = real
        self.real_stack = [real]
        self.allocs = []
        self.reads = []
        self.rows = {}
        self.record_reads = kw.get('record_reads', True) if False else True

    def s_With(self, s, st):
        o = getattr(s, 'omp', None)
        if not o or o['kind'] not in ('OMPAtomicDirective', 'OMPCriticalDirective', 'OMPMasterDirective', 'OMPSingleDirective'):
            return super().s_With(s, st)
        g, self.guard = self.guard, True
        try:
            return super().s_With(s, st)
        finally:
            self.guard = g

    # ---------------------------------------------------------------- parameters
    def cparam(self, name, ct):
        b = bare(ct)
        if is_int_ct(ct):
            return V(sym(name, True), tag=name, hint='int', data='ctype:' + b)
        v = V(sym(name), tag=name, hint='arr' if is_ptr_ct(ct) or 'array_t<' in ct else ('float' if b in ('double', 'float') else None))
        v.data = 'ctype:' + b
        if b == 'bool':
            v.hint = 'bool'
        return v

    def run_c(self, fnode, args=None):
        args = dict(args or {})
        for a in fnode.args.args:
            if a.arg not in args:
                args[a.arg] = self.cparam(a.arg, getattr(a, 'ctype', ''))
        return self.run(fnode, args)

    # ---------------------------------------------------------------- names
    def lookup(self, n, st, node=None):
        if n.startswith('__cf_'):
            env = st.env()
            return V(const('cfun:' + n[5:]), kind='ext', data='cfun.' + n[5:])
        if n in ('threadIdx', 'blockIdx', 'blockDim', 'gridDim'):
            v = V(sym(n), tag=n)
            v.attrs = {a: V(sym('%s.%s' % (n, a), True), tag='%s.%s' % (n, a), hint='int') for a in 'xyz'}
            return v
        if n.startswith('__c') and n.endswith('__'):
            return V(const('cb:' + n), kind='ext', data='cbuiltin.' + n)
        return super().lookup(n, st, node)

    def call(self, f, args, kwargs, st, node):
        if f.kind == 'ext' and isinstance(f.data, str):
            if f.data.startswith('cfun.'):
                return self.ccall(f.data[5:], args, st, node)
            if f.data.startswith('cbuiltin.'):
                return self.cbuiltin(f.data[9:], args, st, node)
        if f.kind == 'bmeth' and f.data[1] == '__cconv__':
            return f.data[0]
        if f.kind == 'bmeth' and f.data[1].startswith('__py_'):
            r = self.pymethod(f.data[0], f.data[1][5:], args, st, node)
            if r is not None:
                return r
            f = V(const('meth:' + f.data[1][5:]), kind='bmeth', data=(f.data[0], f.data[1][5:]))
        if f.kind == 'term' and args and self.arraylike(f):
            # element access through an unchecked view
            i = args[0] if len(args) == 1 else V(app('tuple', *[self.vterm(x) for x in args]), kind='seq',
                                                 elems=list(args), data='tuple')
            return self.subscript(f, i, st, node)
        return super().call(f, args, kwargs, st, node)

    @staticmethod
    def arraylike(f):
        return isinstance(f.data, str) and 'array' in f.data or f.hint == 'arr'

    # ---------------------------------------------------------------- pybind11
    def getattr(self, o, a, st, node):
        if o.kind == 'term' and isinstance(o.data, tuple) and o.data and o.data[0] == 'bufinfo':
            x = o.base
            if a == 'ptr':
                if x.term.op == 'app' and x.term.args[0] == 'reshape' and isinstance(x.base, V) \
                        and x.base.term is x.term.args[1]:
                    return x.base
                return x
            if a == 'shape':
                return V(extmodels.shape_term(x.term), hint='tuple')
            if a == 'size':
                return V(app('size', x.term), hint='int')
            if a == 'ndim':
                return V(app('dim', x.term), hint='int')
        if a.startswith('operator ') and not a.startswith('operator()') and o.kind in ('term', 'func', 'obj'):
            return V(const('meth:conv'), kind='bmeth', data=(o, '__cconv__'))
        if o.kind == 'term' and a in ('attr', 'request', 'unchecked', 'mutable_unchecked', 'data', 'mutable_data',
                                      'has_value', 'value', 'is_none', 'ndim', 'size', 'shape') \
                and not self.in_reference(a, node) and isinstance(o.data, str) and o.data.startswith('ctype:') \
                and any(x in o.data for x in ('py::', 'pybind', 'array', 'optional', 'object')):
            return V(const('meth:' + a), kind='bmeth', data=(o, '__py_' + a))
        return super().getattr(o, a, st, node)

    @staticmethod
    def in_reference(a, node):
        """a Python attribute, not a member function of array_t."""
        return a in ('shape', 'size', 'ndim') and not hasattr(node, 'cfile')

    def setattr(self, o, a, v, st, node):
        if o.kind == 'term' and isinstance(o.data, tuple) and o.data and o.data[0] == 'bufinfo':
            return
        return super().setattr(o, a, v, st, node)

    def pymethod(self, o, a, args, st, node):
        at = [self.vterm(x) for x in args]
        if a == 'request':
            v = V(app('bufinfo', o.term), base=o)
            v.data = ('bufinfo',)
            return v
        if a in ('unchecked', 'mutable_unchecked', 'data', 'mutable_data') and not args:
            return o
        if a == 'attr' and len(at) == 1 and at[0].op == 'const':
            n = at[0].args[1]
            if o.attrs is None:
                o.attrs = {}
            if n not in o.attrs:
                p = t.show(o.term) + '.' + n
                o.attrs[n] = V(sym(p, n in self.int_names), tag=p)
            return o.attrs[n]
        if a == 'has_value':
            return V(t.not_(t.isnone(o.term)), hint='bool')
        if a == 'is_none':
            return V(t.isnone(o.term), hint='bool')
        if a == 'value':
            return o
        if a == 'shape' and len(at) == 1:
            return V(app('sel', extmodels.shape_term(o.term), at[0]), hint='int')
        if a == 'size':
            return V(app('size', o.term), hint='int')
        if a == 'ndim':
            return V(app('dim', o.term), hint='int')
        return None

    def resolve(self, name, args, node):
        cands = self.native.by_name.get(name, [])
        cands = [c for c in cands if len(c.args.args) == len(args)]
        if not cands:
            return None
        real = self.real_stack[-1]
        # prefer overloads whose pointer types match those of the arguments

        def score(c):
            s = 0
            for a, v in zip(c.args.args, args):
                ct = bare(getattr(a, 'ctype', ''))
                if isinstance(v.data, str) and v.data.startswith('ctype:'):
                    vt = bare(v.data[6:])
                    if vt == ct:
                        s += 2
                    elif is_ptr_ct(vt) and is_ptr_ct(ct):
                        s -= 3
            if c.targs:
                s += 1 if real in c.targs.values() else 0
            return s
        return max(cands, key=score)

    def ccall(self, name, args, st, node):
        fn = self.resolve(name, args, node)
        m = self.models.get('c:' + name)
        if m is not None:
            return m(self, st, node, args, {})
        if fn is not None and name not in MATHF:
            if name in self.opaque:
                return self.opaque_call(name, fn, args, {}, st, node)
            tr = [x for x in fn.targs.values() if x in ('double', 'float')]
            self.real_stack.append(tr[0] if tr else self.real_stack[-1])
            self.last_refs = None
            try:
                r = self.call_func(V(const('fn:' + name), kind='func', data=(fn, None, None)), args, {}, st, node)
            finally:
                self.real_stack.pop()
            # write back scalar reference parameters
            refs = st.extra.pop('$refs', None)
            if refs is not None and isinstance(node, ast.Call):
                for i, (a, x) in enumerate(zip(fn.args.args, node.args)):
                    ct = getattr(a, 'ctype', '')
                    if ct.rstrip().endswith('&') and not ct.strip().startswith('const') \
                            and isinstance(x, (ast.Name, ast.Subscript)) and i < len(refs.elems):
                        self.assign(x, refs.elems[i], st, node)
            return r
        at = [self.vterm(a) for a in args]
        if name in MATHF or name in ('sin', 'cos', 'sqrt', 'pow', 'abs', 'floor', 'ceil', 'fmax', 'fmin', 'round',
                                     'exp', 'fmod'):
            return self.ext.call(self, 'math.' + MATHF.get(name, name), args, {}, st, node)
        if name in ('max', 'min') and len(args) == 2:
            r = (t.tmax if name == 'max' else t.tmin)(*at)
            return V(r, hint=args[0].hint)
        if name in ('memcpy', 'memmove') and len(args) == 3:
            d, s = args[0], args[1]
            n = at[2]
            self.copy_range(d, s, self.elems_of(n), st, node)
            return d
        if name == 'memset' and len(args) == 3:
            self.fill_range(args[0], self.elems_of(at[2]), at[1], st, node)
            return args[0]
        if name == 'fill_n' and len(args) == 3:
            self.fill_range(args[0], at[1], at[2], st, node)
            return args[0]
        if name == 'fill' and len(args) == 3:
            n = self.ptrdiff(args[0], args[1])
            if n is not None:
                self.fill_range(args[0], n, at[2], st, node)
                return V(t.NONE)
        if name == 'copy' and len(args) == 3:
            n = self.ptrdiff(args[0], args[1])
            if n is not None:
                self.copy_range(args[2], args[0], n, st, node)
                return args[2]
        if name == 'copy_n' and len(args) == 3:
            self.copy_range(args[2], args[0], at[1], st, node)
            return args[2]
        if name == 'accumulate' and len(args) == 3:
            n = self.ptrdiff(args[0], args[1])
            if n is not None:
                base, off = self.root(args[0])
                j = sym('$j', True)
                b = t.select(base.term, t.add(off, j))
                kk, _ = t.binder(b)
                return V(t.add(at[2], t.bigsum(kk, t.subst(b, {j: kk}), n)))
        if name in ('atomicAdd',) and len(args) >= 2:
            p = args[0]
            base, off = self.root(p)
            i = off
            old = self.subscript(base, V(i, hint='int'), st, node)
            val = t.add(old.term, at[1])
            e = self.emit(st, 'store', 'store', node, [base, V(val)], idx=i, op='Add', roots=base.roots(), val=val,
                          rhs=at[1], target=base, path=self.vpath(base), old=base.term, oids=base.chain_oids(),
                          atomic=True)
            self.update(base, i, val)
            return old
        if name in ('__syncthreads', 'move', 'forward'):
            if name == '__syncthreads':
                self.emit(st, 'call', 'c:__syncthreads', node, [])
            return args[0] if args else V(t.NONE)
        if name in ('make_tuple',):
            self.emit(st, 'call', 'c:' + name, node, args)
            return V(app('tuple', *at), kind='seq', elems=list(args), data='tuple')
        if name in ('endl', 'setw', 'flush'):
            return V(app('setw', *[self.vterm(a) for a in args]) if name == 'setw' else app('io'))
        e = self.emit(st, 'call', 'c:' + name, node, args)
        r = V(app('c:' + name, *at))
        if hasattr(node, 'cret') and is_int_ct(node.cret):
            r.hint = 'int'
        e.result = r
        self.note_call(st, r.term)
        return r

    # ---------------------------------------------------------------- pointers
    def root(self, p):
        if isinstance(p.data, tuple) and p.data and p.data[0] == 'ptr':
            return p.base, p.data[1]
        return p, t.ZERO

    def ptrdiff(self, a, b):
        ra, oa = self.root(a)
        rb, ob = self.root(b)
        if ra is rb or ra.oid == rb.oid:
            return t.sub(ob, oa)
        return None

    def elems_of(self, n):
        """bytes -> elements: divide out the sizeof factor."""
        for s in t.subterms(n):
            if s.op == 'app' and s.args[0] == 'sizeof':
                return t.div(n, s)
        return app('bytes', n)

    def copy_range(self, d, s, n, st, node):
        db, do = self.root(d)
        sb, so = self.root(s)
        self.emit(st, 'store', 'rangecopy', node, [db, sb], idx=app('rng', do, n), op='copy', roots=db.roots(),
                  val=app('rng', sb.term, so, n), rhs=None, target=db, path=self.vpath(db), old=db.term,
                  oids=db.chain_oids(), src=sb, srcoff=so, n=n, dstoff=do)
        if do is t.ZERO:
            j = sym('$j', True)
            b = t.select(sb.term, t.add(so, j))
            kk, _ = t.binder(b, db.term)
            self.update(db, ALL, app('amap', kk, db.term, t.subst(b, {j: kk}), n))
        else:
            j = sym('$j', True)
            self.update(db, ALL, self.range_fold(db.term, do, t.select(sb.term, t.add(so, j)), j, n))

    @staticmethod
    def range_fold(init, off, body, j, n):
        """init with the cells off+j, j < n, replaced by body."""
        kk, acc = t.binder(init, off, body)
        b = t.subst(app('upd', acc, t.add(off, j), body), {j: kk})
        return app('fold', kk, acc, init, b, n)

    def fill_range(self, d, n, v, st, node):
        db, do = self.root(d)
        self.emit(st, 'store', 'rangefill', node, [db], idx=app('rng', do, n), op='fill', roots=db.roots(),
                  val=v, rhs=v, target=db, path=self.vpath(db), old=db.term, oids=db.chain_oids(), n=n, dstoff=do)
        if do is t.ZERO:
            kk, _ = t.binder(v, db.term)
            if db.term.op == 'app' and db.term.args[0] == 'uninit' and db.term.args[1] is n:
                self.update(db, ALL, app('full', n, v))
            else:
                self.update(db, ALL, app('amap', kk, db.term, v, n))
        else:
            self.update(db, ALL, self.range_fold(db.term, do, v, sym('$j', True), n))

    def subscript(self, o, i, st, node):
        b, off = self.root(o)
        if b is not o:
            i = V(t.add(off, self.vterm(i)), hint='int')
            o = b
        if o.kind == 'term' and isinstance(o.data, str) and o.data.startswith('ctype:') and self.recording \
                and node is not None and isinstance(getattr(node, 'ctx', None), ast.Load):
            self.reads.append((o, self.vterm(i), st.pc, tuple(self.loop_stack), node,
                               self.call_stack[-1] if self.call_stack else '?', self.vpath(o), self.guard,
                               next(self.seq)))
        row = self.rows.get(o.oid)
        if row is not None:
            # pointer table: the i-th entry points into another buffer
            boid, k, off = row
            b2 = self.by_oid(st, boid)
            if b2 is not None:
                off = t.subst(off, {k: self.vterm(i)})
                v = V(app('ptr', b2.term, off), base=b2, hint='arr')
                v.data = ('ptr', off)
                return v
        r = super().subscript(o, i, st, node)
        x = r.term
        if x.op == 'app' and x.args[0] in ('sel', 'isel') and x.args[1].op == 'app' and x.args[1].args[0] == 'amap':
            y = self.through_map(x, st)
            if y is not x:
                r.term = y
        return r

    def by_oid(self, st, oid):
        for v in list(st.extra.values()) + [x for e in st.frames for x in e.vars.values()]:
            while isinstance(v, V):
                if v.oid == oid:
                    return v
                v = v.base
        for e in st.frames:
            e = e.parent
            while e is not None:
                for v in e.vars.values():
                    if v.oid == oid:
                        return v
                e = e.parent
        return None

    def through_map(self, x, st):
        f, o, i = x.args
        while o.op == 'app' and o.args[0] == 'amap':
            _, kk, init, body, N = o.args
            if t.implies(st.pc, t.lt(i, N)) and t.implies(st.pc, t.ge(i, t.ZERO)):
                return t.subst(body, {kk: i})
            break
        return x

    def store_sub(self, o, i, val, st, node, op=None, rhs=None):
        b, off = self.root(o)
        if b is not o:
            i = V(t.add(off, self.vterm(i)), hint='int')
            o = b
        it = self.vterm(i)
        if val.kind == 'term' and isinstance(val.data, tuple) and val.data and val.data[0] == 'ptr' \
                and isinstance(val.base, V) and it.op == 'sym':
            self.rows[o.oid] = (val.base.oid, it, val.data[1])
        return super().store_sub(o, i, val, st, node, op=op, rhs=rhs)

    # ---------------------------------------------------------------- lowering helpers
    def cbuiltin(self, n, args, st, node):
        at = [self.vterm(a) for a in args]
        if n == '__cnew__':
            k = len(self.allocs) + 1
            ty = at[1].args[1] if at[1].op == 'const' else '?'
            init = at[2] is t.TRUE
            site = 'new@%s:%s' % (self.call_stack[-1] if self.call_stack else '?',
                                  getattr(node, 'lineno', 0))
            v = V(app('zeros', at[0]) if init else app('uninit', at[0], const(site)), hint='arr')
            v.tag = site
            ct = ty if ty.endswith('*') else ty + ' *'
            if not bare(ct).endswith('*'):
                ct += ' *'
            v.data = 'ctype:' + bare(ct)
            e = self.emit(st, 'call', 'c:new', node, args, size=at[0], type=ty, init=init, isarray=at[3] is t.TRUE)
            e.result = v
            self.allocs.append((v.oid, site, at[0], ty, init, e))
            self.note_call(st, app('c:new', at[0]))
            return v
        if n == '__cdelete__':
            b, off = self.root(args[0])
            e = self.emit(st, 'call', 'c:delete', node, [b], isarray=at[1] is t.TRUE, off=off,
                          oids=b.chain_oids())
            return V(t.NONE)
        if n == '__cptradd__':
            b, off = self.root(args[0])
            v = V(app('ptr', b.term, t.add(off, at[1])), base=b, hint='arr')
            v.data = ('ptr', t.add(off, at[1]))
            return v
        if n == '__cptrdiff__':
            d = self.ptrdiff(args[1], args[0])
            return V(app('ptrdiff', *at) if d is None else d, hint='int')
        if n == '__caddr__':
            return args[0]
        if n == '__cuninit__':
            ct = at[1].args[1] if at[1].op == 'const' else ''
            nm = at[0].args[1] if at[0].op == 'const' else '?'
            v = V(app('uninitvar', const(nm)), hint='int' if is_int_ct(ct) else None)
            if bare(ct) in ('double', 'float'):
                v.hint = 'float'
            if not is_int_ct(ct) and not bare(ct) in ('double', 'float') and not is_ptr_ct(ct):
                # default constructed object
                v.term = app('ctor', const(bare(ct)))
            v.data = 'ctype:' + bare(ct)
            return v
        if n == '__carray__':
            v = V(app('zeros' if at[2] is not t.NONE else 'uninit', at[0]), hint='arr')
            ct = at[1].args[1] if at[1].op == 'const' else ''
            v.data = 'ctype:' + bare(ct.split('[')[0]) + ' *'
            return v
        if n == '__csizeof__':
            return V(app('sizeof', at[0]), hint='int')
        if n == '__cexc__':
            return V(app('exc', at[0]), kind='ext', data='cexc.' + str(at[0].args[1]))
        if n == '__cprint__':
            if at and at[0] is const('cout'):
                parts, width = [], ''
                for x in at[1:]:
                    if x.op == 'app' and str(x.args[0]).endswith('setw') and len(x.args) == 2 and t.numval(x.args[1]) is not None:
                        width = str(int(t.numval(x.args[1])))
                        continue
                    if width and t.is_int(x):
                        parts.append(extmodels.fmt_term(x, width, 'd'))
                    elif width:
                        parts.append(app('padded', x, const(width)))
                    else:
                        parts.append(extmodels.as_text(x))
                    width = ''
                extmodels.put(st, const('stdout'), extmodels.str_concat(parts))
            return V(app('io'))
        if n == '__comp__':
            return V(app('omp'))
        if n == '__cctor__':
            ty = at[0].args[1] if at[0].op == 'const' else '?'
            return self.ctor(ty, args[1:], st, node)
        e = self.emit(st, 'call', 'c:' + n, node, args)
        r = V(app('c:' + n, *at))
        e.result = r
        return r

    def ctor(self, ty, args, st, node):
        at = [self.vterm(a) for a in args]
        b = bare(ty)
        if b in INTS or b in ('double', 'float'):
            return V(at[0] if at else t.ZERO, hint='int' if b in INTS else 'float')
        base = b.split('<')[0].split('::')[-1].strip()
        if base == 'vector' and args and args[0].kind != 'seq':
            el = b[b.find('<') + 1:b.rfind('>')].split(',')[0].strip()
            v = V(app('full', at[0], at[1]) if len(at) > 1 else app('zeros', at[0]), hint='arr')
            v.data = 'ctype:' + bare(el) + ' *'
            v.tag = 'vector@%s:%s' % (self.call_stack[-1] if self.call_stack else '?', getattr(node, 'lineno', 0))
            return v
        if len(args) == 1 and base in ('float_', 'int_', 'bool_', 'any_container', 'function', 'optional', 'object',
                                       'array_t', 'shared_ptr', 'unique_ptr', 'buffer_info', 'tuple', 'vector'):
            if base == 'array_t' and args[0].kind == 'term' and args[0].data is None:
                args[0].data = 'ctype:' + b
                args[0].hint = args[0].hint or 'arr'
            return args[0]
        e = self.emit(st, 'call', 'c:ctor:' + base, node, args, type=b)
        if base in ('array_t', 'array') and 2 <= len(args) <= 3:
            # an array over the given buffer
            shp = args[0]
            sh = app('tuple', *[self.vterm(x) for x in shp.elems]) if shp.kind == 'seq' else at[0]
            bb, off = self.root(args[1])
            v = V(app('reshape', bb.term, sh), base=bb, hint='arr')
            v.data = 'ctype:' + b
            e.result = v
            self.note_call(st, v.term)
            return v
        v = V(app('ctor', const(base), *at), base=list(args) or None)
        v.data = 'ctype:' + b
        e.result = v
        self.note_call(st, v.term)
        return v
