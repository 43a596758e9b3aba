"""Which attributes a function may read and set, itself or through anything it calls: an over-approximation over the syntax
trees of the whole package. Names and module members are resolved through the imports; a member of `self` or of an annotated
parameter is looked up in that class, its bases and its subclasses; any other member named n may be every method or property n."""
import ast

INPLACE = {'fill', 'sort', 'put', 'resize', 'itemset', 'partition', 'append', 'extend', 'insert', 'pop', 'clear', 'update',
           'remove', 'reverse', 'setfield', 'byteswap', 'setdefault'}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def classes(idx):
    c = idx.__dict__.get('all_classes')
    if c is None:
        c = idx.all_classes = []
        for m in idx.modules.values():
            c += [e[1] for e in m.names.values() if e[0] == 'class']
    return c


def family(idx, c):
    memo = idx.__dict__.setdefault('families', {})
    if c.qual not in memo:
        up = [x for x in c.mro(idx)]
        memo[c.qual] = up + [x for x in classes(idx) if x is not c and c in x.mro(idx)]
    return memo[c.qual]


def members(idx, name, cls=None, load=True):
    out = []
    for c in (family(idx, cls) if cls is not None else classes(idx)):
        for tab in ((c.methods, c.getters) if load else (c.setters,)):
            if name in tab:
                out.append(tab[name])
    return out


def constructor(idx, c):
    return [x.methods['__init__'] for x in c.mro(idx) if '__init__' in x.methods][:1]


def root_attr(x):
    """attribute whose value is modified by storing into x."""
    while isinstance(x, (ast.Subscript, ast.Starred)):
        x = x.value
    return x.attr if isinstance(x, ast.Attribute) else None


def body_nodes(fn):
    """everything evaluated when the function runs: no annotations."""
    work = list(fn.body)
    while work:
        n = work.pop()
        yield n
        if isinstance(n, FN):
            work += n.body
        elif isinstance(n, ast.AnnAssign):
            work += [n.target] + ([n.value] if n.value is not None else [])
        else:
            work += ast.iter_child_nodes(n)


def local(idx, fn):
    """(attributes read, attributes set, functions that may run)."""
    reads, sets, calls, allread = set(), set(), [], False
    mod, cls = fn.mod, getattr(fn, 'cls', None)
    types = {}
    args = fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs
    if cls is not None and args and 'staticmethod' not in getattr(fn, 'deco', []):
        types[args[0].arg] = cls
    for a in args:
        ann = a.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                ann = None
        r = idx.resolve_expr(mod, ann) if ann is not None else None
        if r and r[0] == 'class':
            types[a.arg] = r[1]
    stored = {n.id for n in body_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for x in stored:
        types.pop(x, None)
    for n in body_nodes(fn):
        if isinstance(n, ast.Attribute):
            (reads if isinstance(n.ctx, ast.Load) else sets).add(n.attr)
            if n.attr in ('__dict__', '__setattr__'):
                return None, None, calls
            r = idx.resolve_expr(mod, n) if not (isinstance(n.value, ast.Name) and (n.value.id in stored or n.value.id in types)) \
                else None
            if r is None:
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
                    for c in cls.mro(idx)[1:]:
                        calls += [tab[n.attr] for tab in (c.methods, c.getters, c.setters) if n.attr in tab]
                elif n.attr not in ('__init__', '__new__'):
                    calls += members(idx, n.attr, types.get(v.id) if isinstance(v, ast.Name) else None,
                                     isinstance(n.ctx, ast.Load))
            elif r[0] == 'func':
                calls.append(r[1])
            elif r[0] == 'class':
                calls += constructor(idx, r[1])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in stored:
            r = idx.resolve_expr(mod, n)
            if r and r[0] == 'func':
                calls.append(r[1])
            if n.id in ('setattr', 'vars', 'exec', 'eval', 'locals', 'globals'):
                return None, None, calls
        elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
            a = root_attr(n)
            if a:
                sets.add(a)
        elif isinstance(n, ast.AugAssign):
            a = root_attr(n.target)
            if a:
                sets.add(a)
                reads.add(a)
                calls += members(idx, a)
        elif isinstance(n, ast.keyword) and n.arg == 'out':
            a = root_attr(n.value)
            if a:
                sets.add(a)
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in INPLACE:
                a = root_attr(f.value)
                if a:
                    sets.add(a)
            if isinstance(f, ast.Name):
                r = idx.resolve_expr(mod, f)
                if r and r[0] == 'class':
                    calls += constructor(idx, r[1])
                if f.id == 'getattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        reads.add(n.args[1].value)
                        calls += members(idx, n.args[1].value)
                    else:
                        allread = True
    return (None if allread else reads), sets, calls


def effects(idx, roots):
    """(attributes read, attributes set); None stands for all."""
    key = tuple(sorted(id(r) for r in roots))
    memo = idx.__dict__.setdefault('effect_memo', {})
    if key in memo:
        return memo[key]
    reads, sets = set(), set()
    work, seen = list(roots), set()
    while work:
        f = work.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        r, s, calls = local(idx, f)
        reads = None if r is None or reads is None else reads | r
        sets = None if s is None or sets is None else sets | s
        work += [c for c in calls if isinstance(c, FN) and hasattr(c, 'mod')]
    memo[key] = reads, sets
    return memo[key]
