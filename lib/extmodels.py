"""Models of builtins, numpy/cupy, math and ndarray methods for engine.py."""
import ast
import terms as t
from terms import T, sym, const, num, app

PI = sym('pi')
CONF = 'longitudinal_tomography.utils.tomo_config.'


def constant(d):
    n = d.split('.')[-1]
    if d in ('numpy.pi', 'cupy.pi', 'math.pi', 'scipy.constants.pi'):
        return PI
    if d in ('numpy.inf', 'math.inf'):
        return sym('inf')
    if d in ('numpy.nan', 'math.nan'):
        return sym('nan')
    if d in ('numpy.newaxis',):
        return t.NONE
    if d == 'scipy.constants.c':
        return sym('const_c')
    if d in ('scipy.constants.e', 'scipy.constants.elementary_charge'):
        return sym('const_e')
    return None


def V_(*a, **k):
    from engine import V
    return V(*a, **k)


def file_path(f):
    """path of the file a value stands for."""
    while f is not None:
        if isinstance(f.data, tuple) and f.data and f.data[0] == 'file':
            return f.data[1]
        f = f.data[1] if isinstance(f.data, tuple) and f.data and f.data[0] == 'enter' else None
    return None


def put(st, path, text):
    o = st.extra.get('$out')
    if o is not None:
        o.term = app('put', o.term, path, text)


def as_text(x):
    if x.op == 'const' and isinstance(x.args[1], str) or x.op == 'app' and x.args[0] in ('concat', 'bigcat', 'fmt'):
        return x
    if x.op == 'ite' and texty(x):
        return t.ite(x.args[0], as_text(x.args[1]), as_text(x.args[2]))
    return fmt_term(x, '', '')


def texty(x):
    if x.op == 'ite':
        return texty(x.args[1]) and texty(x.args[2])
    return x.op == 'const' and isinstance(x.args[1], str) or \
        x.op == 'app' and x.args[0] in ('concat', 'bigcat', 'fmt', 'repeat')


def text_path(x):
    """dir/name however it is put together."""
    if x.op == 'app' and x.args[0] in ('ext:os.path.join', 'ext:posixpath.join', 'opDiv') and len(x.args) > 2:
        out = []
        for i, p in enumerate(x.args[1:]):
            if i:
                out.append(const('/'))
            p = text_path(p)
            out.append(p if p.op == 'const' or p.op == 'app' and p.args[0] in ('concat', 'fmt') else app('fmt', p, const('')))
        return str_concat(out)
    if x.op == 'app' and x.args[0] in ('ext:pathlib.Path', 'ext:os.fspath', 'ext:str'):
        return text_path(x.args[1])
    return x


def str_concat(parts):
    out = []
    for p in parts:
        if p.op == 'app' and p.args[0] == 'concat':
            out.extend(p.args[1:])
        else:
            out.append(p)
    m = []
    for p in out:
        if p.op == 'const' and isinstance(p.args[1], str):
            if p.args[1] == '':
                continue
            if m and m[-1].op == 'const' and isinstance(m[-1].args[1], str):
                m[-1] = const(m[-1].args[1] + p.args[1])
                continue
        m.append(p)
    if not m:
        return const('')
    its = [i for i, p in enumerate(m) if p.op == 'ite' and texty(p)]
    if its and len(its) <= 2:
        i = its[0]
        return t.ite(m[i].args[0], str_concat(m[:i] + [m[i].args[1]] + m[i + 1:]),
                     str_concat(m[:i] + [m[i].args[2]] + m[i + 1:]))
    if len(m) == 1 and m[0].op == 'const':
        return m[0]
    return app('concat', *m)


def is_str(v):
    tm = v.term
    return v.hint == 'str' or (tm.op == 'const' and tm.args[0] == 'str') or \
        (tm.op == 'app' and tm.args[0] in ('concat', 'str', 'percent'))


# ------------------------------------------------------------------ binop
def binop(eng, op, a, b, st, node):
    from engine import V
    x, y = eng.vterm(a), eng.vterm(b)
    hint = 'arr' if 'arr' in (a.hint, b.hint) else (a.hint if a.hint == b.hint else
                                                  ('float' if {a.hint, b.hint} <= {'int', 'float'} else None))
    n = type(op).__name__
    if n == 'Add':
        if is_str(a) or is_str(b):
            return V(str_concat([x, y]), hint='str')
        if a.kind == 'seq' and b.kind == 'seq':
            r = V(t.NONE, kind='seq', elems=a.elems + b.elems, data=a.data)
            r.term = eng.vterm(r)
            return r
        if a.kind == 'seq' or b.kind == 'seq' or 'list' in (a.hint, b.hint):
            if 'arr' not in (a.hint, b.hint):
                return V(app('listcat', x, y), hint='list')
        return V(t.add(x, y), hint=hint)
    if n == 'Sub':
        return V(t.sub(x, y), hint=hint)
    if n == 'Mult':
        if a.kind == 'seq' and t.is_num(y) and a.data == 'list':
            k = int(t.numval(y))
            if k <= 16:
                r = V(t.NONE, kind='seq', elems=list(a.elems) * k, data='list')
                r.term = eng.vterm(r)
                return r
        if is_str(b) and not is_str(a):
            a, b, x, y = b, a, y, x
        if is_str(a) and x.op == 'const' and t.is_num(y) and t.numval(y) == int(t.numval(y)) <= 400:
            return V(const(x.args[1] * int(t.numval(y))), hint='str')
        if a.kind == 'seq' or is_str(a):
            return V(app('repeat', x, y), hint=a.hint)
        return V(t.mul(x, y), hint=hint)
    if n == 'Div':
        if getattr(node, 'cint', False):
            return V(t.floordiv(x, y), hint='int')
        return V(t.div(x, y), hint='arr' if hint == 'arr' else 'float')
    if n == 'FloorDiv':
        return V(t.floordiv(x, y), hint=hint)
    if n == 'Mod':
        if is_str(a):
            args = b.elems if b.kind == 'seq' else [b]
            return V(percent(x, [eng.vterm(q) for q in args]), hint='str')
        return V(t.mod(x, y), hint=hint)
    if n == 'Pow':
        e = t.numval(y)
        if e is not None and abs(e) <= 12:
            return V(t.power(x, e), hint=hint)
        return V(app('pow', x, y), hint=hint)
    if n == 'BitAnd' and (t._is_boolish(x) or t._is_boolish(y)):
        return V(t.and_(t.truth(x), t.truth(y)), hint=hint)
    if n == 'BitOr' and (t._is_boolish(x) or t._is_boolish(y)):
        return V(t.or_(t.truth(x), t.truth(y)), hint=hint)
    if n == 'MatMult':
        return V(app('matmul', x, y), hint='arr')
    return V(app('op' + n, x, y), hint=hint)


def percent(fmt, args):
    if fmt.op == 'const':
        import re
        out = []
        pos = 0
        i = 0
        s = fmt.args[1]
        for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])', s):
            out.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                out.append(const('%'))
                continue
            if i < len(args):
                out.append(fmt_term(args[i], m.group(1), m.group(2)))
            i += 1
        out.append(const(s[pos:]))
        return str_concat(out)
    return app('percent', fmt, *args)


def norm_spec(s):
    """equal format specifications in one form."""
    if s.startswith('0') and (len(s) < 2 or not s[1].isdigit()):
        s = s[1:]
    return '' if s == 'd' else s


def fmt_term(a, flags, conv):
    if conv == 'd' or flags.endswith('d'):
        flags = norm_spec(flags)
    spec = flags + (conv if conv not in 'sr' else '')
    spec = spec.replace('i', 'd').replace('u', 'd')
    if spec == '' or (spec == 'd'):
        if texty(a):
            return as_text(a)
        if a.op == 'const' and isinstance(a.args[1], str):
            return a
        v = t.numval(a)
        if v is not None and v.denominator == 1:
            return const(str(int(v)))
        return app('fmt', a, const(''))
    return app('fmt', a, const(norm_spec(spec)))


# ------------------------------------------------------------------ subscripts
def _is_index_scalar(it):
    return t.is_int(it) or (it.op == 'poly' and t.is_num(it))


def subscript(eng, o, i, st, node):
    from engine import V
    it = eng.vterm(i)
    if o.kind == 'seq':
        n = t.numval(it)
        if n is not None and n.denominator == 1 and -len(o.elems) <= n < len(o.elems):
            return o.elems[int(n)]
        if it.op == 'app' and it.args[0] == 'slice' and all(a is t.NONE or t.is_num(a) for a in it.args[1:]):
            sl = slice(*[None if a is t.NONE else int(t.numval(a)) for a in it.args[1:]])
            r = V(t.NONE, kind='seq', elems=o.elems[sl], data=o.data)
            r.term = eng.vterm(r)
            return r
        return V(app('sel', eng.vterm(o), it), base=list(o.elems) or None)
    if o.kind == 'dict':
        if it in o.attrs:
            return o.attrs[it]
        return V(app('sel', o.term, it))
    if o.kind == 'iter':
        return V(app('sel', app('iter'), it))
    if o.kind in ('class', 'ext'):
        return o
    ot = o.term
    if eng.is_full_slice(it):
        return V(ot, base=o, path=None, hint=o.hint)
    if i.kind == 'seq':
        parts = [eng.vterm(x) for x in i.elems]
        # a[i, :] == a[i]
        while len(parts) > 1 and eng.is_full_slice(parts[-1]):
            parts.pop()
        if len(parts) == 1:
            it = parts[0]
        else:
            it = app('tuple', *parts)
    if ot.op == 'ite' and not (t._is_boolish(it)):
        pass
    if t._is_boolish(it) and it not in (t.TRUE, t.FALSE):
        return V(app('mask', ot, it), hint='arr')
    it = from_end(ot, it)
    val = select(ot, it)
    scalarish = it.op == 'app' and it.args[0] in ('slice',)
    hint = None
    if scalarish:
        hint = 'arr' if o.hint == 'arr' else o.hint
    elif i.kind == 'seq' and any(eng.vterm(x).op == 'app' and eng.vterm(x).args[0] == 'slice' for x in i.elems):
        hint = o.hint
    cdim = getattr(o, 'data', None)
    v = V(val, base=o, path=it, hint=hint)
    if isinstance(cdim, str) and cdim.startswith('ctype:'):
        ct = cdim[6:].strip()
        if ct.endswith('*'):
            ct2 = ct[:-1].strip()
            v.data = 'ctype:' + ct2
            if not ct2.endswith('*') and ct2.replace('const', '').strip() in ('int', 'long', 'bool', 'size_t',
                                                                            'unsigned int', 'long long'):
                v.hint = 'int'
        elif 'array_t<int' in ct or 'array_t<long' in ct:
            v.hint = 'int'
            v.data = 'ctype:int'
    if o.hint == 'int-arr' or (isinstance(v.data, str) and v.hint == 'int'):
        if val.op == 'app' and val.args[0] == 'sel':
            v.term = app('isel', *val.args[1:])
    return v


select = t.select


# ------------------------------------------------------------------ attributes of opaque values
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}


def attribute(eng, o, a, st, node):
    from engine import V
    ot = o.term
    if a == 'T':
        if ot.op == 'app' and ot.args[0] == 'T':
            return V(ot.args[1], base=o, hint=o.hint)
        return V(app('T', ot), base=o, hint=o.hint or 'arr')
    if a == 'shape':
        return V(shape_term(ot), hint='tuple')
    if a == 'size':
        return V(app('size', ot), hint='int')
    if a == 'ndim':
        return V(app('dim', ot), hint='int')
    if a in ('real', 'imag'):
        return V(app(a, ot), base=o, hint=o.hint)
    if a == 'dtype':
        return V(app('dtype', ot))
    if a in METHODS or o.hint == 'arr' and a not in ('shape',) or file_path(o) is not None:
        return V(const('meth:' + a), kind='bmeth', data=(o, a))
    if ot.op == 'sym' and o.tag:
        # attribute of an opaque (untyped) parameter object: remember it on the value
        if o.attrs is None:
            o.attrs = {}
        if a in o.attrs:
            return o.attrs[a]
        p = str(ot.args[0]) + '.' + a
        v = V(sym(p, a in eng.int_names), tag=p, hint=eng.attr_hint(p, a))
        v.data = ('attrof', o, a)
        if a.startswith('__'):
            return v
        o.attrs[a] = v
        return v
    v = V(app('attr', ot, const(a)))
    v.data = ('attrof', o, a)
    return v


METHODS = {'copy', 'astype', 'sum', 'max', 'min', 'mean', 'std', 'reshape', 'flatten', 'ravel', 'transpose', 'clip',
           'append', 'extend', 'fill', 'sort', 'any', 'all', 'argmax', 'argmin', 'tolist', 'squeeze', 'dot', 'cumsum',
           'prod', 'round', 'nonzero', 'repeat', 'take', 'swapaxes', 'insert', 'pop', 'remove', 'clear', 'update',
           'setdefault', 'items', 'keys', 'values', 'get', 'format', 'join', 'split', 'strip', 'splitlines', 'lower',
           'upper', 'replace', 'startswith', 'endswith', 'read', 'readlines', 'write', 'close', 'readline', 'view',
           'item', 'itemset', 'put', 'writelines', 'flush', 'var', 'diagonal', 'trace', 'resize', 'partition', 'searchsorted', 'conj', 'ptp', 'rstrip', 'lstrip', 'index',
           'count', 'reverse', 'tobytes', 'request', 'mutable_data', 'data_ptr', 'size_m', 'at'}

INPLACE_METHODS = {'fill', 'sort', 'put', 'resize', 'itemset', 'partition', 'append', 'extend', 'insert', 'pop',
                   'remove', 'clear', 'update', 'setdefault', 'reverse'}


def kwargs_terms(eng, kwargs):
    return [app('kw:' + k, eng.vterm(v)) for k, v in sorted(kwargs.items()) if k != '**']


def builtin_method(eng, o, a, args, kwargs, st, node):
    from engine import V, ALL
    ot = eng.vterm(o)
    at = [eng.vterm(x) for x in args]
    if o.kind == 'dict':
        if a == 'get' and args and at[0] in o.attrs:
            return o.attrs[at[0]]
        if a == 'items':
            els = []
            for k, v in o.attrs.items():
                s = V(t.NONE, kind='seq', elems=[V(k), v], data='tuple')
                s.term = eng.vterm(s)
                els.append(s)
            return V(t.NONE, kind='seq', elems=els, data='list')
        if a == 'keys':
            return V(t.NONE, kind='seq', elems=[V(k) for k in o.attrs], data='list')
        if a == 'values':
            return V(t.NONE, kind='seq', elems=list(o.attrs.values()), data='list')
        if a == 'copy':
            return V(o.term, kind='dict', attrs=dict(o.attrs))
        if a == 'pop':
            if at and at[0] in o.attrs:
                return o.attrs.pop(at[0])
            return args[1] if len(args) > 1 else V(app('pop', *at))
        if a == 'update' and args and args[0].kind == 'dict':
            o.attrs.update(args[0].attrs)
            return V(t.NONE)
    if o.kind == 'seq' and o.data == 'list':
        if a == 'append' and not eng.loop_stack_dynamic():
            o.elems.append(args[0])
            o.term = eng.vterm(o)
            eng.emit(st, 'mutate', a, node, [o] + args, roots=o.roots())
            return V(t.NONE)
        if a == 'copy':
            r = V(t.NONE, kind='seq', elems=list(o.elems), data='list')
            r.term = eng.vterm(r)
            return r
        if a == 'extend' and args and args[0].kind == 'seq':
            o.elems.extend(args[0].elems)
            o.term = eng.vterm(o)
            eng.emit(st, 'mutate', a, node, [o] + args, roots=o.roots())
            return V(t.NONE)
    if is_str(o):
        return str_method(eng, o, a, args, kwargs, st, node)
    if a == 'copy':
        return V(ot, hint=o.hint)
    if a == 'astype':
        return astype(eng, o, args[0] if args else kwargs.get('dtype'), kwargs.get('copy'))
    if a in ('reshape',):
        shp = at[0] if len(at) == 1 else app('tuple', *at)
        if kwargs.get('order') is not None:
            return V(app('reshape', ot, shp, app('kw:order', eng.vterm(kwargs['order']))), base=o, hint='arr')
        return V(reshape(ot, shp), base=o, hint='arr')
    if a in ('flatten', 'ravel'):
        order = (at + [eng.vterm(kwargs['order']) if 'order' in kwargs else const('C')])[0]
        if order is const('F'):
            return V(app('ravel', app('T', ot)), hint='arr')
        r = app('ravel', ot) if order is const('C') else app('ravel', ot, order)
        return V(r, hint='arr') if a == 'flatten' else V(r, base=o, hint='arr')
    if a in ('transpose',):
        if not args:
            if ot.op == 'app' and ot.args[0] == 'T':
                return V(ot.args[1], base=o, hint='arr')
            return V(app('T', ot), base=o, hint='arr')
        return V(app('transpose', ot, *at), base=o, hint='arr')
    if a in ('squeeze', 'view', 'swapaxes'):
        return V(app(a, ot, *at), base=o, hint='arr')
    if a in NP_REDUCE:
        return np_reduce(eng, a, [o] + args, kwargs)
    if a == 'clip':
        return np_clip(eng, [o] + args, kwargs, st, node)
    if a == 'conj':
        return V(app('conj', ot), hint=o.hint)
    if a == 'tolist':
        return V(ot, hint='list')
    if a in INPLACE_METHODS:
        eng.emit(st, 'mutate', a, node, [o] + args, kwargs, roots=o.roots())
        if o.kind == 'seq':
            o.kind = 'term'
        if a == 'append':
            eng.update(o, ALL, app('append', ot, *at))
        elif a == 'fill':
            eng.update(o, ALL, app('full', app('shape', ot), *at))
        else:
            eng.update(o, ALL, app('mut:' + a, ot, *at))
        return V(app('ret:' + a, ot, *at))
    if a == 'dot':
        return V(app('matmul', ot, *at), hint='arr')
    if a in ('request',):
        v = V(app('bufinfo', ot), base=o)
        return v
    if a in ('items',):
        return V(app('items', ot), kind='iter', data=('items', ot))
    fp = file_path(o)
    if fp is not None:
        if a == 'write' and at:
            put(st, fp, at[0])
            return V(app('len', at[0]))
        if a == 'writelines' and at:
            put(st, fp, joined(const(''), args[0], at[0]))
            return V(t.NONE)
        if a in ('flush', 'close'):
            return V(t.NONE)
    e = eng.emit(st, 'call', 'method:' + a, node, [o] + args, kwargs)
    r = V(app('m:' + a, ot, *(at + kwargs_terms(eng, kwargs))))
    e.result = r
    eng.note_call(st, r.term)
    return r


def joined(sep, v, x):
    """sep.join(x)."""
    if v.kind == 'seq' and v.elems is not None:
        parts = []
        for i, e in enumerate(v.elems):
            parts += ([sep] if i else []) + [e.term]
        return str_concat(parts)
    if x.op == 'app' and x.args[0] == 'map' and sep is const(''):
        return app('bigcat', *x.args[1:])
    return app('str:join', sep, x)


def str_method(eng, o, a, args, kwargs, st, node):
    from engine import V
    at = [eng.vterm(x) for x in args]
    if a == 'format':
        fmt = o.term
        if fmt.op == 'const':
            import re
            s = fmt.args[1]
            out = []
            pos = 0
            auto = 0
            for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(?:![rsa])?(?::([^{}]*))?\}', s):
                out.append(const(s[pos:m.start()]))
                pos = m.end()
                if m.group(0) in ('{{', '}}'):
                    out.append(const(m.group(0)[0]))
                    continue
                nm = m.group(1)
                if nm == '':
                    v = at[auto] if auto < len(at) else app('missing')
                    auto += 1
                elif nm.isdigit():
                    v = at[int(nm)] if int(nm) < len(at) else app('missing')
                else:
                    v = eng.vterm(kwargs[nm]) if nm in kwargs else app('missing')
                out.append(fmt_term(v, norm_spec(m.group(2) or ''), ''))
            out.append(const(s[pos:]))
            return V(str_concat(out), hint='str')
    if a == 'join' and args and args[0].kind == 'seq':
        parts = []
        for k, x in enumerate(args[0].elems):
            if k:
                parts.append(o.term)
            parts.append(eng.vterm(x))
        return V(str_concat(parts), hint='str')
    if a == 'join' and args and at[0].op == 'app' and at[0].args[0] in ('map', 'mapif'):
        return V(joined(o.term, args[0], at[0]), hint='str')
    return V(app('str:' + a, o.term, *at), hint='str' if a not in ('split', 'splitlines', 'startswith', 'endswith',
                                                                   'index', 'count', 'find') else None)


INT_TYPES = {'int', 'int32', 'int64', 'intc', 'int_', 'uint32', 'int8', 'int16'}
FLOAT_TYPES = {'float', 'float64', 'float32', 'double', 'single', 'float_', 'longdouble'}


def type_name(v):
    if v is None:
        return None
    if v.kind == 'ext':
        return v.data.split('.')[-1]
    if v.term.op == 'const' and isinstance(v.term.args[1], str):
        return v.term.args[1]
    return None


def astype(eng, o, ty, copy=None):
    from engine import V
    ot = eng.vterm(o)
    n = type_name(ty)
    base = o if (copy is not None and copy.term is t.FALSE) else None
    if n in INT_TYPES:
        if t.is_int(ot):
            return V(ot, hint=o.hint, base=base)
        return V(app('int', ot), hint='arr' if o.hint in (None, 'arr') else o.hint, base=base)
    if n in FLOAT_TYPES:
        return V(ot, hint='arr' if o.hint in (None, 'arr') else o.hint, base=base)
    if ty is None:
        return V(ot, hint=o.hint, base=base)
    if n == 'bool':
        return V(t.truth(ot), hint=o.hint)
    return V(app('astype', ot, eng.vterm(ty)), hint='arr', base=base)


def reshape(x, shp):
    n = t.numval(shp)
    if n == -1 or (shp.op == 'app' and shp.args[0] in ('tuple', 'list') and len(shp.args) == 2
                   and t.numval(shp.args[1]) == -1):
        return app('ravel', x)
    if shp.op == 'app' and shp.args[0] == 'list':
        shp = app('tuple', *shp.args[1:])
    return app('reshape', x, shp)


NP_REDUCE = {'sum', 'max', 'min', 'mean', 'std', 'argmax', 'argmin', 'any', 'all', 'prod', 'cumsum', 'ptp'}


def np_reduce(eng, a, args, kwargs):
    from engine import V
    x = args[0]
    xt = eng.vterm(x)
    extra = []
    ax = None
    if len(args) > 1:
        ax = eng.vterm(args[1])
    if 'axis' in kwargs:
        ax = eng.vterm(kwargs['axis'])
    if ax is not None and ax is not t.NONE:
        extra.append(app('axis', ax))
    keep = kwargs.get('keepdims')
    if keep is not None and a in ('sum', 'max', 'min', 'mean', 'std', 'prod') and eng.vterm(keep) in (t.TRUE, t.FALSE):
        rest = {k: v for k, v in kwargs.items() if k != 'keepdims'}
        if eng.vterm(keep) is t.FALSE:
            return np_reduce(eng, a, args, rest)
        if ax is not None and t.numval(ax) == 1:
            # a row's total, in a column again
            r = np_reduce(eng, a, args, rest)
            al = app('slice', t.NONE, t.NONE, t.NONE)
            return V(t.select(r.term, app('tuple', al, t.NONE)), hint='arr')
    for k in sorted(kwargs):
        if k not in ('axis', 'dtype', 'out'):
            extra.append(app('kw:' + k, eng.vterm(kwargs[k])))
    if a in ('any', 'all'):
        xb = xt if t._is_boolish(xt) else t.truth(xt)
        if x.kind == 'seq' and not extra:
            f = t.or_ if a == 'any' else t.and_
            return V(f(*[eng.truth_v(y) for y in x.elems]))
        # any(not p) == not all(p): canonical in terms of any
        if a == 'all':
            xb = t.not_(xb)
            if xb.op == 'or' and not extra:
                return V(t.not_(t.or_(*[t.mk('app', 'any', p) for p in xb.args])))
            return V(t.not_(t.mk('app', 'any', xb, *extra)))
        if xb.op == 'or' and not extra:
            return V(t.or_(*[t.mk('app', 'any', p) for p in xb.args]))
        return V(t.mk('app', 'any', xb, *extra))
    if x.kind == 'seq' and not extra:
        els = [eng.vterm(y) for y in x.elems]
        if a == 'sum':
            return V(t.add(*els) if els else t.ZERO)
        if a in ('max', 'min') and els:
            acc = els[0]
            for y in els[1:]:
                acc = (t.tmax if a == 'max' else t.tmin)(acc, y)
            return V(acc)
    hint = 'arr' if extra or a == 'cumsum' else 'float'
    if a == 'sum' and not extra:
        # linear: pull scalar factors out of sums of one monomial
        c, p = t._content(xt)
        if xt is t.ZERO:
            return V(t.ZERO)
        return V(t.scale(app('sum', p), c), hint=hint)
    return V(app(a, xt, *extra), hint=hint)


def np_clip(eng, args, kwargs, st, node):
    from engine import V, ALL
    x = args[0]
    lo = args[1] if len(args) > 1 else kwargs.get('a_min') or kwargs.get('min')
    hi = args[2] if len(args) > 2 else kwargs.get('a_max') or kwargs.get('max')
    r = eng.vterm(x)
    if lo is not None and eng.vterm(lo) is not t.NONE:
        r = t.tmax(r, eng.vterm(lo))
    if hi is not None and eng.vterm(hi) is not t.NONE:
        r = t.tmin(r, eng.vterm(hi))
    out = args[3] if len(args) > 3 else kwargs.get('out')
    if out is not None and eng.vterm(out) is not t.NONE:
        eng.inplace(out, ALL, V(r), st, node, op='out')
        return out
    return V(r, hint='arr')


def length(eng, v):
    if v.kind == 'seq':
        return num(len(v.elems))
    if v.kind == 'dict':
        return num(len(v.attrs))
    x = v.term
    return length_term(x)


SCALARS = {'sum', 'max', 'min', 'mean', 'std', 'len', 'size', 'argmax', 'argmin', 'dim'}


def is_scalar(x):
    return t.is_num(x) or x.op == 'app' and x.args[0] in SCALARS and len(x.args) == 2


def shape_term(x):
    if x.op == 'poly':
        # scalar terms and factors do not matter
        arrs = set()
        for c, m in x.args:
            arrs |= {a for a, e in m if not is_scalar(a)}
        if len(arrs) == 1:
            return shape_term(arrs.pop())
    if x.op == 'ite' and (t.is_num(x.args[1]) or t.is_num(x.args[2])):
        y = x.args[2] if t.is_num(x.args[1]) else x.args[1]
        if not t.is_num(y) and y in t.subterms(x.args[0]):
            return shape_term(y)
    if x.op == 'app':
        f = x.args[0]
        if f in ('int', 'sin', 'cos', 'abs', 'clip', 'upd', 'floor', 'ceil', 'rint'):
            return shape_term(x.args[1])
        if f in ('zeros', 'ones', 'full') and x.args[1].op == 'app' and x.args[1].args[0] in ('tuple', 'shape'):
            return x.args[1]
    return app('shape', x)


def only_stores(x, mu):
    """is x mu with some of its cells replaced?"""
    if x is mu:
        return True
    if x.op == 'ite':
        return only_stores(x.args[1], mu) and only_stores(x.args[2], mu)
    return x.op == 'app' and x.args[0] == 'upd' and only_stores(x.args[1], mu)


def from_end(ot, it):
    """a position counted from the end, as one counted from the start where the length is known."""
    v = t.numval(it)
    if v is not None and v < 0 and v.denominator == 1:
        n = length_term(ot)
        if not (n is None or n.op == 'app' and n.args[0] == 'len'):
            return t.add(n, it)
    return it


def length_term(x):
    if x.op == 'poly':
        # arrays of a known length among scalars
        out = set()
        for c, m in x.args:
            for a, e in m:
                if a.op == 'app' and a.args[0] in ('arange', 'linspace', 'map', 'amap', 'zeros', 'ones', 'full'):
                    out.add(length_term(a))
        if len(out) == 1:
            y = out.pop()
            if not (y.op == 'app' and y.args[0] == 'len'):
                return y
    if x.op == 'app':
        f = x.args[0]
        if f in ('zeros', 'ones', 'empty', 'arange', 'full') and len(x.args) >= 2:
            s = x.args[1]
            if s.op == 'app' and s.args[0] == 'tuple':
                return s.args[1] if len(s.args) > 1 else None
            if f != 'arange' or len(x.args) == 2:
                return s
        if f == 'upd':
            return length_term(x.args[1])
        if f == 'fold' and only_stores(x.args[4], x.args[2]):
            return length_term(x.args[3])
        if f == 'sfold' and x.args[4].args[1].op != 'sym':
            st = [y for y in t.syms(x.args[4].args[1]) if str(y.args[0]).startswith('$st') and str(y.args[0]).endswith('_0')]
            if any(only_stores(x.args[4].args[1], y) for y in st):
                return length_term(x.args[3].args[1])
        if f == 'map':
            return x.args[3]
        if f == 'amap':
            return length_term(x.args[2])
        if f == 'linspace' and len(x.args) >= 4:
            return x.args[3]
        if f == 'shape':
            pass
        if f in ('sin', 'cos', 'abs', 'int'):
            return length_term(x.args[1])
        if f == 'reshape' and x.args[2].op == 'app' and x.args[2].args[0] == 'tuple':
            return x.args[2].args[1]
    if x.op == 'ite':
        a, b = length_term(x.args[1]), length_term(x.args[2])
        if a is b:
            return a
    return app('len', x)


MATH1 = {'sin': t.sin, 'cos': t.cos, 'sqrt': t.sqrt, 'abs': t.tabs, 'fabs': t.tabs, 'absolute': t.tabs,
         'square': lambda x: t.power(x, 2), 'negative': t.neg, 'fast_sin': t.sin, 'fast_sinf': t.sin,
         'sinf': t.sin, 'sqrtf': t.sqrt, 'cosf': t.cos, 'fast_cos': t.cos, 'fast_cosf': t.cos, 'fabsf': t.tabs}
MATH1_OPAQUE = {'tan', 'exp', 'log', 'log10', 'arcsin', 'arccos', 'arctan', 'floor', 'ceil', 'rint', 'sign', 'sinh',
                'cosh', 'tanh', 'asin', 'acos', 'atan', 'isnan', 'isfinite', 'deg2rad', 'rad2deg', 'degrees',
                'radians', 'round', 'around', 'trunc', 'diff', 'cumsum', 'gradient', 'sort', 'argsort', 'unique',
                'conj', 'angle', 'fft', 'ifft', 'log2', 'expm1', 'log1p', 'cumtrapz', 'isscalar'}
NUMLIBS = ('numpy', 'cupy', 'math', 'cmath', 'cp', 'std', 'scipy', 'vdt', 'ltverif')


def call(eng, d, args, kwargs, st, node):
    """call of an external (non repository) name d."""
    from engine import V, ALL, Dead
    m = eng.models.get(d) or eng.models.get('ext:' + d)
    if m is not None:
        return m(eng, st, node, args, kwargs)
    n = d.split('.')[-1]
    lib = d.split('.')[0]
    at = [eng.vterm(a) for a in args]
    if lib == 'scipy' or d in SIGS:
        args, kwargs = by_name(d, args, kwargs)
        at = [eng.vterm(a) for a in args]
    if d == 'scipy.optimize.minimize' and 'fun' in kwargs and kwargs['fun'].kind == 'func':
        # what is minimised is the function, whatever it is called: written out for an arbitrary argument
        extra = kwargs.get('args')
        ex = [] if extra is None else eng.static_elems(extra)
        if ex is not None:
            body = eng.call(kwargs['fun'], [V(sym('$minarg'))] + list(ex), {}, st, node)
            kwargs = {k: v for k, v in kwargs.items() if k != 'args'}
            kwargs['fun'] = V(app('lam', eng.vterm(body)))
    if d.startswith(CONF) and n not in ('kick_and_drift', 'reconstruct', 'make_phase_space'):
        # array functions the active backend re-exports (numpy or cupy)
        d = 'numpy.' + n
        lib = 'numpy'
    if lib == 'builtins':
        r = builtin(eng, n, args, kwargs, st, node)
        if r is not None:
            return r
    # methods of conf's swapped numpy functions or numpy itself
    if lib in NUMLIBS:
        r = numlib(eng, d, n, args, kwargs, st, node)
        if r is not None:
            return r
    if n in LIBTOMO and (d.startswith(CONF) or 'libtomo' in d):
        sig = libtomo_names(n, args, kwargs)
        b = bind_libtomo(n, args, kwargs)
        if b is not None:
            d = 'libtomo.' + n
            args, kwargs = b, {}
            at = [eng.vterm(a) for a in args]
    e = eng.emit(st, 'call', d, node, args, kwargs)
    r = V(app('ext:' + d, *(at + kwargs_terms(eng, kwargs))))
    e.result = r
    eng.note_call(st, r.term)
    if d.startswith('libtomo.') and n in LIBTOMO_INPLACE:
        # the native routine works on the caller's buffers
        names = [x.split('=')[0] for x in sig.split()]
        out = []
        for w in LIBTOMO_INPLACE[n].split():
            a = args[names.index(w)]
            new = r.term if len(LIBTOMO_INPLACE[n].split()) == 1 else app('out:' + w, r.term)
            if a.kind == 'term':
                eng.emit(st, 'mutate', d, node, [a], {}, roots=a.roots())
                if a.hint is None:
                    a.hint = 'arr'
                eng.update(a, ALL, new)
            out.append(a if a.kind == 'term' else V(new, hint='arr'))
        if len(out) == 1:
            e.result = out[0]
            return out[0]
        e.result = V(app('tuple', *[x.term for x in out[:2]]), kind='seq', elems=out[:2], data='tuple')
        return e.result
    return r


def _sig(text):
    import inspect
    return inspect.signature(eval('lambda ' + text + ': 0'))


# library functions that carry no signature
SIGS = {'numpy.random.choice': _sig('a, size=None, replace=True, p=None')}


def by_name(d, args, kwargs):
    """a call of a library function with every argument given by name, arguments at their default left out."""
    import importlib
    import inspect
    if d not in SIGS:
        try:
            m, f = d.rsplit('.', 1)
            SIGS[d] = inspect.signature(getattr(importlib.import_module(m), f))
        except (ImportError, AttributeError, ValueError, TypeError):
            SIGS[d] = None
    sg = SIGS[d]
    if sg is None or '**' in kwargs or any(getattr(a, 'kind', '') == 'star' for a in args):
        return args, kwargs
    ps = sg.parameters
    if any(p.kind == p.VAR_POSITIONAL for p in ps.values()):
        return args, kwargs
    try:
        b = sg.bind(*args, **kwargs).arguments
    except TypeError:
        return args, kwargs
    out = {}
    for k, v in b.items():
        p = ps[k]
        if p.kind == p.VAR_KEYWORD:
            out.update(v)
        elif isinstance(p.default, (int, float, str, bool, type(None))) and v.kind == 'term' and v.term is const(p.default):
            continue
        elif p.default == () and v.kind == 'seq' and not v.elems:
            continue
        else:
            out[k] = v
    return [], out


LIBTOMO_INPLACE = {'kick': 'denergy', 'drift': 'dphi', 'kick_and_drift': 'xp yp denergy dphi', 'project': 'flat_rec',
                   'back_project': 'weights', 'count_particles_in_bins_multi': 'input_parts'}
# call signatures of the native library (public API): one canonical positional form per call
_KD = 'xp yp denergy dphi rfv1 rfv2 phi0 deltaE0 drift_coef phi12 h_ratio dturns rec_prof deltaturn nturns nparts ' \
      'ftn_out=False callback=None'
_KDM = 'xp yp denergy dphi rfv1 rfv2 machine rec_prof deltaturn nturns nparts ftn_out=False callback=None'
LIBTOMO = {
    'kick': 'machine denergy dphi rfv1 rfv2 npart turn up=True',
    'drift': 'denergy dphi drift_coef npart turn up=True',
    'kick_and_drift': _KD,
    'project': 'flat_rec flat_points weights n_particles n_profiles n_bins',
    'back_project': 'weights flat_points flat_profiles n_particles n_profiles',
    'count_particles_in_bins_multi': 'input_parts input_xp input_centers n_particles n_profiles n_bins n_centers',
    'reconstruct': 'xp waterfall n_iter n_bins n_particles n_profiles verbose=False callback=None',
    'reconstruct_multi': 'xp waterfall inp_cutleft inpt_cutright inp_centers n_iter n_bins n_particles n_profiles '
                         'n_centers verbose=False callback=None',
    'make_phase_space': 'xp yp weights n_bins',
}


def libtomo_names(n, args, kwargs):
    if n == 'kick_and_drift' and len(args) + len(kwargs) < 16 and not {'phi0', 'drift_coef', 'dturns'} & set(kwargs):
        return _KDM
    return LIBTOMO[n]


def bind_libtomo(n, args, kwargs):
    from engine import V
    out = []
    names = [x.split('=') for x in libtomo_names(n, args, kwargs).split()]
    if len(args) > len(names) or any(k not in [x[0] for x in names] for k in kwargs):
        return None
    for i, nm in enumerate(names):
        if i < len(args):
            out.append(args[i])
        elif nm[0] in kwargs:
            out.append(kwargs[nm[0]])
        elif len(nm) > 1:
            out.append(V(const({'True': True, 'False': False, 'None': None}[nm[1]])))
        else:
            return None
    return out


def builtin(eng, n, args, kwargs, st, node):
    from engine import V
    at = [eng.vterm(a) for a in args]
    if n == 'range':
        lo, hi, stp = t.ZERO, None, t.ONE
        if len(at) == 1:
            hi = at[0]
        elif len(at) == 2:
            lo, hi = at
        elif len(at) == 3:
            lo, hi, stp = at
        else:
            return None
        return V(app('range', lo, hi, stp), kind='iter', data=('range', lo, hi, stp))
    if n == 'len' and args:
        v = args[0]
        if v.kind == 'obj' and v.cls is not None:
            m, _ = v.cls.find(eng.idx, 'methods', '__len__')
            if m is not None:
                return eng.call_func(V(const('fn'), kind='func', data=(m, None, v)), [], {}, st, node)
        if v.kind == 'iter':
            ln = eng.iter_len(v)
            return V(ln, hint='int')
        return V(length(eng, v), hint='int')
    if n == 'enumerate':
        els = eng.static_elems(args[0])
        start = at[1] if len(at) > 1 else (eng.vterm(kwargs['start']) if 'start' in kwargs else t.ZERO)
        if els is not None:
            out = []
            for k, x in enumerate(els):
                s = V(t.NONE, kind='seq', elems=[V(t.add(start, num(k)), hint='int'), x], data='tuple')
                s.term = eng.vterm(s)
                out.append(s)
            return V(t.NONE, kind='seq', elems=out, data='list')
        return V(app('enumerate', at[0]), kind='iter', data=('enumerate', args[0], start))
    if n == 'zip':
        els = [eng.static_elems(a) for a in args]
        if els and all(x is not None for x in els):
            out = []
            for tup in zip(*els):
                s = V(t.NONE, kind='seq', elems=list(tup), data='tuple')
                s.term = eng.vterm(s)
                out.append(s)
            return V(t.NONE, kind='seq', elems=out, data='list')
        return V(app('zip', *at), kind='iter', data=('zip', args))
    if n == 'reversed' and args:
        els = eng.static_elems(args[0])
        if els is not None:
            r = V(t.NONE, kind='seq', elems=list(reversed(els)), data='list')
            r.term = eng.vterm(r)
            return r
        a = args[0]
        if a.kind == 'iter' and a.data[0] == 'range' and t.numval(a.data[3]) == 1:
            lo, hi = a.data[1], a.data[2]
            return V(app('range', t.sub(hi, t.ONE), t.sub(lo, t.ONE), num(-1)), kind='iter',
                     data=('range', t.sub(hi, t.ONE), t.sub(lo, t.ONE), num(-1)))
        return V(app('reversed', at[0]), kind='iter', data=('reversed', a))
    if n in ('list', 'tuple', 'set', 'sorted', 'iter', 'frozenset'):
        if not args:
            r = V(t.NONE, kind='seq', elems=[], data='list' if n == 'list' else n)
            r.term = eng.vterm(r)
            return r
        els = eng.static_elems(args[0])
        if els is not None and n in ('list', 'tuple'):
            r = V(t.NONE, kind='seq', elems=list(els), data=n)
            r.term = eng.vterm(r)
            return r
        if n in ('list', 'tuple', 'iter') and args[0].kind == 'term':
            return V(at[0], hint='list' if n == 'list' else args[0].hint)
        return V(app(n, *at), hint='list')
    if n == 'dict':
        r = V(app('dict', const('new')), kind='dict', attrs={})
        if args and args[0].kind == 'dict':
            r.attrs.update(args[0].attrs)
        for k, v in kwargs.items():
            if k == '**':
                return V(app('dict', *at))
            r.attrs[const(k)] = v
        if args and args[0].kind != 'dict':
            return V(app('dict', *at))
        return r
    if n == 'int' and args:
        if t.is_int(at[0]) or (t.is_num(at[0]) and t.numval(at[0]).denominator == 1):
            return V(at[0], hint='int')
        return V(app('int', at[0]), hint='int')
    if n == 'float' and args:
        return V(at[0], hint='float')
    if n == 'str' and args:
        if is_str(args[0]):
            return args[0]
        return V(app('fmt', at[0], const('')), hint='str')
    if n == 'bool' and args:
        return V(eng.truth_v(args[0]))
    if n == 'abs' and args:
        return V(t.tabs(at[0]), hint=args[0].hint)
    if n in ('min', 'max'):
        if len(args) == 1:
            return np_reduce(eng, n, args, {})
        acc = at[0]
        for x in at[1:]:
            acc = (t.tmax if n == 'max' else t.tmin)(acc, x)
        return V(acc, hint=args[0].hint)
    if n in ('sum', 'any', 'all') and args:
        r = np_reduce(eng, n, args[:1], {})
        if n == 'sum' and len(at) > 1:
            return V(t.add(r.term, at[1]))
        return r
    if n == 'pow' and len(args) >= 2:
        e = t.numval(at[1])
        if e is not None:
            return V(t.power(at[0], e))
    if n == 'round' and args:
        return V(app('round', *at))
    if n == 'isinstance' and len(args) == 2:
        v, c = args
        if v.kind == 'obj' and v.cls is not None and c.kind == 'class':
            ok = c.cls.name == v.cls.name or c.cls.name in v.cls.ancestors(eng.idx)
            if ok:
                return V(t.TRUE)
            return V(t.mk('isinst', v.term, const(c.cls.name)))
        ty = eng.typed.get(at[0])
        if ty is not None:
            r = _typed_isinst(ty, at[1])
            if r is not None:
                return V(const(r))
        if at[1].op == 'app' and at[1].args[0] in ('tuple', 'list'):
            return V(t.or_(*[t.mk('isinst', at[0], y) for y in at[1].args[1:]]))
        return V(t.mk('isinst', at[0], at[1]))
    if n == 'getattr' and len(args) >= 2 and at[1].op == 'const' and isinstance(at[1].args[1], str):
        o, nm = args[0], at[1].args[1]
        there = o.kind == 'obj' and nm in (o.attrs or {})
        v = eng.getattr(o, nm, st, node)
        if len(args) == 3 and not there:
            if o.attrs:
                o.attrs.pop(nm, None)
            return eng.merge_v(v, args[2], app('hasattr', at[0], at[1]), {}, {})
        return v
    if n == 'setattr' and len(args) == 3 and at[1].op == 'const':
        eng.setattr(args[0], at[1].args[1], args[2], st, node)
        return V(t.NONE)
    if n == 'setattr' and len(args) == 3:
        eng.emit(st, 'setattr', '?', node, [args[0], args[2]], path='?', obj=args[0], dyn=at[1])
        return V(t.NONE)
    if n == 'hasattr' and len(args) == 2:
        if args[0].kind == 'obj' and at[1].op == 'const':
            a = at[1].args[1]
            if a in args[0].attrs:
                return V(t.TRUE)
        return V(app('hasattr', *at))
    if n in ('callable', 'issubclass'):
        if n == 'callable' and args[0].kind in ('func', 'class', 'ext', 'bmeth'):
            return V(t.TRUE)
        return V(app(n, *at))
    if n == 'print':
        eng.emit(st, 'call', 'print', node, args, kwargs)
        parts = []
        for i, x in enumerate(at):
            if i:
                parts.append(eng.vterm(kwargs['sep']) if 'sep' in kwargs else const(' '))
            parts.append(as_text(x))
        parts.append(eng.vterm(kwargs['end']) if 'end' in kwargs else const('\n'))
        f = kwargs.get('file')
        p = file_path(f) if f is not None else const('stdout')
        if p is not None:
            put(st, p, str_concat(parts))
        return V(t.NONE)
    if n == 'type':
        return V(app('type', *at))
    if n == 'slice':
        p = at + [t.NONE] * (3 - len(at)) if len(at) != 1 else [t.NONE, at[0], t.NONE]
        return V(app('slice', *p[:3]), hint='slice')
    if n == 'divmod':
        r = V(t.NONE, kind='seq', elems=[V(t.floordiv(*at)), V(t.mod(*at))], data='tuple')
        r.term = eng.vterm(r)
        return r
    if n == 'map' and len(args) == 2:
        els = eng.static_elems(args[1])
        if els is not None:
            r = V(t.NONE, kind='seq', elems=[eng.call(args[0], [x], {}, st, node) for x in els], data='list')
            r.term = eng.vterm(r)
            return r
        return V(app('pymap', *at))
    if n in ('open',):
        e = eng.emit(st, 'call', 'open', node, args, kwargs)
        mode = at[1] if len(at) > 1 else eng.vterm(kwargs['mode']) if 'mode' in kwargs else const('r')
        if mode.op == 'const' and isinstance(mode.args[1], str) and at:
            m = mode.args[1].replace('t', '')
            o = st.extra.get('$out')
            if o is not None and m != 'r':
                o.term = app('opened', o.term, text_path(at[0]), const(m))
            return V(app('open', text_path(at[0]), const(m)), data=('file', text_path(at[0])))
        return V(app('open', *at), tag=None)
    if n in ('globals', 'locals', 'vars', 'dir', 'id', 'repr', 'hash', 'next', 'input', 'object', 'property',
             'format', 'ord', 'chr', 'delattr'):
        e = eng.emit(st, 'call', 'builtins.' + n, node, args, kwargs)
        r = V(app('builtins.' + n, *at))
        e.result = r
        return r
    import builtins as B
    if hasattr(B, n) and isinstance(getattr(B, n), type) and issubclass(getattr(B, n), BaseException):
        return V(app('exc', const(n)), data=n)
    return None


# keywords that do not change the values, and those the models below read
NEUTRAL = {'out', 'dtype', 'copy', 'order', 'subok', 'casting', 'like', '**'}
NONE_ = set()
MODELLED = {'clip': {'a_min', 'a_max', 'min', 'max'}, 'zeros': {'shape'}, 'ones': {'shape'}, 'empty': {'shape'},
            'full': {'shape', 'fill_value'}, 'linspace': {'endpoint', 'num', 'retstep', 'start', 'stop', 'axis'},
            'fft': {'n', 'axis', 'norm'}, 'ifft': {'n', 'axis', 'norm'}}
MODELLED['array'] = {'ndmin'}


def numlib(eng, d, n, args, kwargs, st, node):
    from engine import V, ALL
    at = [eng.vterm(a) for a in args]
    out = kwargs.get('out')
    if set(kwargs) - NEUTRAL - MODELLED.get(n, NONE_) and n not in NP_REDUCE:
        return opaque_num(eng, d, n, args, kwargs, st, node)

    def res(term, hint='arr', base=None):
        if out is not None and eng.vterm(out) is not t.NONE:
            eng.inplace(out, ALL, V(term), st, node, op='out')
            return out
        h = hint
        if hint == 'same':
            h = 'arr' if any(a.hint == 'arr' for a in args) else (args[0].hint if args else None)
        return V(term, hint=h, base=base)
    if n in MATH1 and len(args) >= 1:
        if len(args) > 1 and n not in ('square',):
            return None
        return res(MATH1[n](at[0]), 'same')
    if n in ('fft', 'ifft') and 'fft' in d:
        return res(app(d, *(at + kwargs_terms(eng, kwargs))))
    if n in MATH1_OPAQUE and len(args) >= 1:
        return res(app(n, *(at + kwargs_terms(eng, {k: v for k, v in kwargs.items() if k != 'out'}))), 'same')
    if n in NP_REDUCE or n in ('amax', 'amin', 'nansum'):
        return np_reduce(eng, {'amax': 'max', 'amin': 'min'}.get(n, n), args, kwargs) if out is None else \
            res(np_reduce(eng, n, args, kwargs).term)
    if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod', 'remainder', 'fmod',
             'floor_divide') and len(args) >= 2:
        op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div,
              'power': ast.Pow, 'mod': ast.Mod, 'remainder': ast.Mod, 'fmod': ast.Mod,
              'floor_divide': ast.FloorDiv}[n]()
        if len(args) > 2:
            out = args[2]
        r = binop(eng, op, args[0], args[1], st, node)
        return res(r.term, r.hint)
    if n == 'at':
        # ufunc.at(array, idx, val): in-place unbuffered update
        arr = args[0]
        eng.emit(st, 'store', 'ufunc.at', node, [arr] + args[1:], idx=at[1], op=d.split('.')[-2], roots=arr.roots(),
                 val=at[2] if len(at) > 2 else t.NONE, rhs=at[2] if len(at) > 2 else None, target=arr,
                 path=eng.vpath(arr), old=arr.term, oids=arr.chain_oids())
        eng.update(arr, ALL, app('scatter', arr.term, *at[1:]))
        return V(t.NONE)
    if n in ('pow', 'powf') and len(args) == 2:
        e = t.numval(at[1])
        if e is not None:
            return res(t.power(at[0], e), 'same')
        return res(app('pow', *at), 'same')
    if n in ('maximum', 'fmax', 'max') and len(args) >= 2:
        return res(t.tmax(at[0], at[1]), 'same')
    if n in ('minimum', 'fmin', 'min') and len(args) >= 2:
        return res(t.tmin(at[0], at[1]), 'same')
    if n == 'clip':
        return np_clip(eng, args, kwargs, st, node)
    if n == 'where':
        if len(args) == 3:
            return res(t.ite(t.truth(at[0]), at[1], at[2]))
        return res(app('where', t.truth(at[0])))
    if n in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal') and len(args) == 2:
        f = {'less': t.lt, 'less_equal': t.le, 'greater': t.gt, 'greater_equal': t.ge, 'equal': t.eq,
             'not_equal': lambda a, b: t.not_(t.eq(a, b))}[n]
        return res(f(*at), 'same')
    if n in ('logical_and', 'logical_or') and len(args) == 2:
        return res((t.and_ if n == 'logical_and' else t.or_)(t.truth(at[0]), t.truth(at[1])))
    if n == 'logical_not':
        return res(t.not_(t.truth(at[0])))
    if n in ('zeros', 'ones', 'empty', 'full'):
        shp = at[0] if at else eng.vterm(kwargs['shape'])
        if shp.op == 'app' and shp.args[0] == 'list':
            shp = app('tuple', *shp.args[1:])
        if shp.op == 'app' and shp.args[0] == 'tuple' and len(shp.args) == 2:
            shp = shp.args[1]
        ty = type_name(kwargs.get('dtype') or (args[-1] if len(args) > (2 if n == 'full' else 1) else None))
        if n == 'full':
            fill = at[1] if len(at) > 1 else eng.vterm(kwargs.get('fill_value'))
            r = res(app('full', shp, fill))
        else:
            r = res(app(n, shp))
        r.itype = ty in INT_TYPES
        return r
    if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        r = res(app(n[:-5], app('shape', at[0]), *(at[1:2] if n == 'full_like' else [])))
        r.itype = type_name(kwargs.get('dtype') or (args[-1] if len(args) > (2 if n == 'full_like' else 1) else None)) in INT_TYPES
        return r
    if n in ('array', 'copy', 'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'atleast_1d',
             'atleast_2d', 'asarray_chkfinite', 'require'):
        x = args[0]
        cp = n in ('array', 'copy')
        if n == 'array' and 'copy' in kwargs and kwargs['copy'].term is not t.TRUE:
            cp = False
        v = x
        base = None if cp else x
        ty = kwargs.get('dtype') or (args[1] if len(args) > 1 and n in ('array', 'asarray', 'ascontiguousarray')
                                     else None)
        if x.kind == 'seq':
            return V(app('array', *[eng.vterm(y) for y in x.elems]), hint='arr')
        if ty is not None:
            r = astype(eng, x, ty)
            return V(r.term, hint='arr', base=base)
        return V(at[0], hint='arr', base=base)
    if n in ('reshape', 'ravel'):
        return builtin_method(eng, args[0], n, args[1:], kwargs, st, node)
    if n in ('transpose',) and len(args) == 1:
        return attribute(eng, args[0], 'T', st, node)
    if n in ('squeeze', 'swapaxes', 'rollaxis', 'moveaxis', 'expand_dims', 'broadcast_to', 'flip', 'flipud',
             'fliplr', 'transpose'):
        return V(app(n, *at), hint='arr', base=args[0])
    if n == 'arange':
        if len(at) == 1:
            return res(app('arange', at[0]))
        if len(at) == 2 and t.numval(at[0]) == 0:
            return res(app('arange', at[1]))
        return res(app('arange', *at))
    if n == 'linspace':
        return res(app('linspace', *(at + kwargs_terms(eng, kwargs))))
    if n == 'nan_to_num':
        cp = kwargs.get('copy')
        if cp is not None and cp.term is t.FALSE:
            eng.inplace(args[0], ALL, V(app('nan_to_num', at[0])), st, node, op='out')
            return args[0]
        return res(app('nan_to_num', at[0]))
    if n in ('float64', 'float32', 'double', 'float_'):
        return V(at[0], hint=args[0].hint)
    if n in ('int32', 'int64', 'int_', 'intc'):
        return astype(eng, args[0], V(const('int')))
    if n in ('size', 'ndim', 'shape') and args:
        return V(app({'ndim': 'dim'}.get(n, n), at[0]), hint='int')
    if n in ('dot', 'matmul'):
        return res(app('matmul', *at))
    if n == 'issubdtype':
        return V(app('isinstance', *at))
    if n in ('copyto',):
        eng.inplace(args[0], ALL, args[1], st, node, op='out')
        return V(t.NONE)
    if n in ('put', 'place', 'putmask', 'fill_diagonal'):
        eng.emit(st, 'mutate', n, node, args, kwargs, roots=args[0].roots())
        eng.update(args[0], ALL, app('mut:' + n, *at))
        return V(t.NONE)
    if n == 'shuffle':
        eng.emit(st, 'mutate', n, node, args, kwargs, roots=args[0].roots())
        return V(t.NONE)
    return opaque_num(eng, d, n, args, kwargs, st, node)


def opaque_num(eng, d, n, args, kwargs, st, node):
    from engine import V, ALL
    at = [eng.vterm(a) for a in args]
    out = kwargs.get('out')
    if d.startswith(('numpy', 'cupy', 'math', 'scipy')):
        # pure by default: fresh result
        e = eng.emit(st, 'call', d, node, args, kwargs)
        r = V(app('np:' + n if d.startswith(('numpy.', 'cupy.')) and d.count('.') == 1 else 'ext:' + d,
                  *(at + kwargs_terms(eng, {k: v for k, v in kwargs.items() if k != 'out'}))), hint='arr'
              if d.startswith(('numpy', 'cupy')) else None)
        e.result = r
        eng.note_call(st, r.term)
        if out is not None:
            eng.inplace(out, ALL, r, st, node, op='out')
            return out
        return r
    return None


_ISINST = {
    'float': {'float', 'Number', 'numbers.Number', 'Real', 'Complex'},
    'int': {'int', 'Number', 'numbers.Number', 'Integral', 'Real', 'Complex'},
    'arr': {'numpy.ndarray', 'ndarray', 'Iterable', 'Collection', 'Sized'},
    'list': {'list', 'Sequence', 'Iterable', 'MutableSequence', 'Collection', 'Sized'},
    'tuple': {'tuple', 'Sequence', 'Iterable', 'Collection', 'Sized'},
    'str': {'str', 'Sequence', 'Iterable'},
    'bool': {'bool', 'int'},
}


def _typed_isinst(ty, c):
    """isinstance of a value whose type the specification fixes."""
    if c.op == 'app' and c.args[0] in ('tuple', 'list'):
        rs = [_typed_isinst(ty, x) for x in c.args[1:]]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if c.op != 'const' or not isinstance(c.args[1], str):
        return None
    n = c.args[1].split(':')[-1]
    if ty not in _ISINST:
        return None
    return n in _ISINST[ty] or n.split('.')[-1] in _ISINST[ty]
