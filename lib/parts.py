"""Components: calls whose inner working is left to other properties. A component is an uninterpreted function of everything
it can see (its arguments and the state of the objects among them); the objects it may change are left in a state named after it."""
import ast
import terms as t
from terms import app, const, sym
from effects import effects
from engine import V


def snapshot(eng, v, seen=None, reads=None):
    """term naming the state of a value, as far as the attributes `reads` (None: all) can tell."""
    seen = seen or set()
    if v is None:
        return t.NONE
    if v.kind == 'seq':
        return app(v.data or 'tuple', *[snapshot(eng, x, seen, reads) for x in v.elems])
    if v.kind == 'obj':
        if id(v) in seen:
            return app('again', const(v.cls.name if v.cls is not None else '?'))
        seen = seen | {id(v)}
        base = v.attrs['$base'].term if '$base' in v.attrs else (v.term if (v.data or {}).get('lazy', True)
                                                                 else const(v.cls.name if v.cls else '?'))
        items = []
        for a in sorted(v.attrs, key=str):
            if a == '$base' or reads is not None and a not in reads:
                continue
            x = v.attrs[a]
            if x.kind in ('func', 'class', 'mod', 'ext'):
                continue
            s = snapshot(eng, x, seen, reads)
            from engine import attr_of
            if '$base' in v.attrs and s is attr_of(base, a):
                continue            # only read
            if '$base' not in v.attrs and (v.data or {}).get('lazy', True) and s is sym(v.data['path'] + '.' + str(a)):
                continue
            items.append(app('field:' + str(a), s))
        return app('state', base, *items) if items else base
    return eng.vterm(v)


def made(cls, base, **attrs):
    v = V(base, kind='obj', attrs={'$base': V(base)}, cls=cls, data={'path': 'part:' + (cls.name if cls else '?'), 'lazy': True})
    # two objects are one only if they are the same object
    v.data['path'] += '#%d' % v.oid
    v.attrs.update(attrs)
    return v


def change(eng, o, state, sets):
    """a component may have changed the attributes `sets` of o (None: all), other objects excepted."""
    if sets is None or '$base' not in o.attrs:
        kept = {a: x for a, x in o.attrs.items() if x.kind == 'obj'}
        o.attrs.clear()
        o.attrs.update(kept)
        o.attrs['$base'] = V(state)
        return
    for a in sets:
        if o.attrs.get(a) is None or o.attrs[a].kind != 'obj':
            o.attrs[a] = V(app('attr:' + a, state), hint=eng.attr_hint(a, a))


def component(name, fn, names=(), changes=(), result=None, prints=False):
    """model of a call: `names` are its parameters, `changes` the (dotted) parameters it may modify, `result` builds the value."""
    def model(eng, st, node, args, kwargs):
        bound = dict(zip(names, args))
        a = fn.args
        own = [x.arg for x in a.posonlyargs + a.args]       # parameters may be renamed, what counts is their place
        canon = dict(zip(own, names))
        bound.update({canon.get(k, k): v for k, v in kwargs.items()})
        for n, d in list(zip(own[len(own) - len(a.defaults):], a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant) and canon.get(n, n) not in bound:
                bound[canon.get(n, n)] = eng.ev(d, st)
        reads, sets = effects(eng.idx, [fn])
        call = app('part:' + name, *[app('arg:' + n, snapshot(eng, bound[n], None, reads)) for n in names if n in bound])
        for c in changes:
            o = bound.get(c.split('.')[0])
            for a in c.split('.')[1:]:
                o = eng.getattr(o, a, st, node) if o is not None else None
            if o is not None and o.kind == 'obj':
                change(eng, o, app('after:' + c, call), sets)
        if prints:
            from extmodels import put, fmt_term
            put(st, const('stdout'), fmt_term(call, '', ''))
        eng.emit(st, 'call', name, node, args, kwargs)
        if result is not None:
            return result(eng, call, bound)
        return V(call)
    return model
