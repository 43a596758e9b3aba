"""Failures are reported by the documented exceptions."""
import ast
import builtins
import importlib
import re
import symtable
from pyfront import rel, ClassInfo, PKG
from notes import VALUE_NOTE
TECHNIQUE = 'class hierarchy, name resolution and message queries over every raise of the package; conditions of raises by value analysis'
NOTE = ('The hierarchy is resolved through the bases in the source; every raise statement, handler and reference into a package module must '
        'resolve; the condition and class of each exception of the reading, checking and reconstructing functions is compared with '
        'its reference model. ' + VALUE_NOTE)
MIN_OBLIGATIONS = 60
BASES = {
    'CudaCompilationException': (), 'UnequalArrayShapes': ('ValueError',), 'OverMaxIterationsError': (), 'ValuesOutOfBrackets': (),
    'ArrayLengthError': ('ValueError',), 'ArrayElementsNotEqualError': ('ValueError',), 'InputError': (),
    'MachineParameterError': ('ValueError',), 'SpaceChargeParameterError': ('ValueError',), 'RawDataImportError': (),
    'ArgumentError': ('ValueError',), 'NegativeIndexError': ('IndexError',), 'RebinningError': ('RuntimeError',),
    'WaterfallReducedToZero': ('RuntimeError',), 'FilteredProfilesError': ('ValueError',), 'WaterfallError': ('ValueError',),
    'ProfileChargeNotCalculated': ('ValueError',), 'EnergyBinningError': ('ValueError',), 'EnergyLimitsError': ('ValueError',),
    'PhaseLimitsError': ('ValueError',), 'MapCreationError': (), 'InvalidParticleError': ('ValueError',),
    'TrackingError': ('RuntimeError',), 'SelfFieldTrackingError': (), 'PhaseSpaceReducedToZeroes': ('RuntimeError',),
    'XPOutOfImageWidthError': ('ValueError',), 'CoordinateImportError': ('ValueError',), 'CoordinateError': ('ValueError',),
    'InvalidProfileError': ('ValueError',)}
MODELS = ('p13', 'p15', 'p17', 'p18', 'p20', 'p22', 'p26', 'p28')
MORE = [('utils.tomo_input.txt_input_to_machine', 'data.machine_from_text', {'opaque': ['tracking.machine.Machine.values_at_turns']}),
        ('utils.tomo_input._split_input', 'data.split_text', {}),
        ('data.profiles.Profiles.calc_self_fields', 'data.self_fields', {}),
        ('data.data_treatment.phase_space', 'images.phase_space', {}),
        ('compat.fortran.write_plotinfo', 'output.plotinfo', {}),
        ('cpp_routines.tomolib_wrappers.kick_and_drift', 'old.kick_and_drift', {})]


class View:
    """the models of other rules, their exceptions only."""

    def __init__(self, ctx, raising):
        self.ctx, self.raising = ctx, raising
        self.seen = set()

    def model(self, path, spec, aspects=('raises',), via=(), **kw):
        if 'raises' not in aspects:
            return None
        if spec not in self.raising or (path, spec) in self.seen:
            return None
        self.seen.add((path, spec))
        kw.pop('only_attrs', None)
        via = [(p, s, {'aspects': ('raises',)}) for p, s, *_ in via]
        return self.ctx.model(path, spec, aspects=('raises',), via=via, **kw)

    def __getattr__(self, n):
        return getattr(self.ctx, n)


def raising_specs():
    import os
    out = set()
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        fns = {n.name: n for n in ast.parse(open(os.path.join(d, f)).read()).body if isinstance(n, ast.FunctionDef)}
        direct = {k for k, n in fns.items() if any(isinstance(x, ast.Raise) or isinstance(x, ast.Attribute) and isinstance(
            x.value, ast.Name) and x.value.id in ('asrt', 'expt') for x in ast.walk(n))}
        grew = True
        while grew:
            grew = False
            for k, n in fns.items():
                if k not in direct and any(isinstance(x, ast.Name) and x.id in direct for x in ast.walk(n)):
                    direct.add(k)
                    grew = True
        out |= {f[:-3] + '.' + k for k in direct}
    return out


def run(ctx):
    ctx.part('hierarchy', 'exceptions.py', hierarchy, ctx)
    ctx.part('raise', 'raise statements', raises, ctx)
    ctx.part('names', 'names', names, ctx)
    v = View(ctx, raising_specs())
    for m in MODELS:
        importlib.import_module(m).run(v)
    for p, s, kw in MORE:
        v.model(p, s, **kw)


def hierarchy(ctx):
    idx = ctx.idx
    mod = idx.mod('exceptions')
    root = idx.cls('exceptions', 'TomoException')
    w = rel(mod.path)
    anc = root.ancestors(idx)
    ctx.holds('hierarchy', 'TomoException is an Exception', any(isinstance(getattr(builtins, a, None), type) and issubclass(
        getattr(builtins, a), Exception) for a in anc), 'it cannot be caught as Exception (bases: %s)' % ', '.join(anc),
        '%s:%d' % (w, root.node.lineno))
    for name, bases in BASES.items():
        r = idx.module_attr(mod, name)
        if r[0] != 'class':
            if r[0] == 'assign':
                ctx.undecided('hierarchy', name, 'not defined by a class statement', w)
            else:
                ctx.bad('hierarchy', name, 'the exception class is gone', w)
            continue
        anc = r[1].ancestors(idx)
        w2 = '%s:%d' % (w, r[1].node.lineno)
        ctx.holds('hierarchy', name + ' is a TomoException', r[1] is root or root.name in anc and any(
            c is root for c in r[1].mro(idx)), 'it cannot be caught as TomoException (bases: %s)' % ', '.join(anc), w2)
        for b in bases:
            ok = any(isinstance(getattr(builtins, a, None), type) and issubclass(getattr(builtins, a), getattr(builtins, b)) for a in anc)
            ctx.holds('hierarchy', '%s is a %s' % (name, b), ok, 'it cannot be caught as %s (bases: %s)' % (b, ', '.join(anc)), w2)
    for n, ent in mod.names.items():
        if ent[0] == 'class' and ent[1].mod is mod and n not in BASES and ent[1] is not root:
            ctx.holds('hierarchy', n + ' is a TomoException', any(c is root for c in ent[1].mro(idx)),
                      'it cannot be caught as TomoException', '%s:%d' % (w, ent[1].node.lineno))


def is_exception(idx, ent):
    """True / False / None (not known) for a resolved reference used as an exception class."""
    if ent is None:
        return None
    if ent[0] == 'class':
        for a in ent[1].ancestors(idx):
            b = getattr(builtins, a, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return True
        return False if all(isinstance(getattr(builtins, a, None), type) or a in {c.name for c in ent[1].mro(idx)}
                            for a in ent[1].ancestors(idx)) else None
    if ent[0] == 'func':
        return None
    if ent[0] == 'mod':
        return False
    return None


def exc_class(idx, mod, fn, e):
    """('ok'|'bad'|'unknown', text) of the class named by an expression of a raise or a handler."""
    x = e.func if isinstance(e, ast.Call) else e
    txt = ast.unparse(x)
    if isinstance(x, ast.Name):
        if x.id in fn:
            return 'unknown', txt
        if x.id not in mod.names:
            b = getattr(builtins, x.id, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return 'ok', txt
            if b is not None:
                return 'bad', '%s is not an exception' % txt
    r = idx.resolve_expr(mod, x)
    if r is None:
        return 'unknown', txt
    if r[0] == 'ext':
        return ('bad', '%s does not exist' % txt) if r[1].startswith(PKG + '.') and 'libtomo' not in r[1] else ('unknown', txt)
    ok = is_exception(idx, r)
    return ('unknown', txt) if ok is None else ('ok', txt) if ok else ('bad', '%s is not an exception class' % txt)


def local_names(n):
    a = n.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split('.')[0] for y in x.names}
    return out


def format_ok(n):
    """a string built by .format or % gets as many values as it has fields."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' \
            and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        import string
        auto, need, kws = 0, 0, set()
        try:
            for _, f, spec, _ in string.Formatter().parse(n.func.value.value):
                if f is None:
                    continue
                h = re.split(r'[.\[]', f)[0]
                if h == '':
                    auto += 1
                elif h.isdigit():
                    need = max(need, int(h) + 1)
                else:
                    kws.add(h)
        except ValueError:
            return False
        return max(auto, need) <= len(n.args) and kws <= {k.arg for k in n.keywords}
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        f = re.findall(r'%(?!%)(?:\([^)]*\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[a-zA-Z]', n.left.value.replace('%%', ''))
        if any('(' in x or '*' in x for x in f):
            return None
        if isinstance(n.right, ast.Tuple):
            return len(f) == len(n.right.elts)
        if isinstance(n.right, (ast.Constant, ast.JoinedStr)):
            return len(f) == 1
        return None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        ks = [kind(x) for x in (n.left, n.right)]
        return None if None in ks else ks[0] == ks[1] or 'num' in ks and 'str' not in ks
    return None


def kind(x):
    if isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str):
        return 'str'
    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
        return 'num'
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'float', 'abs', 'sum'):
        return 'num'
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('str', 'repr'):
        return 'str'
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        a, b = kind(x.left), kind(x.right)
        return a if a == b else None
    return None


def inside_handler(fn, stmt):
    for h in ast.walk(fn):
        if isinstance(h, ast.ExceptHandler) and any(x is stmt for x in ast.walk(h)):
            return True
    return False


def raises(ctx):
    idx = ctx.idx
    for mod, fn in idx.all_functions():
        if not mod.name.startswith(PKG):
            continue
        loc = None
        k = 0
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not fn:
                continue
            w = '%s:%d' % (rel(mod.path), getattr(n, 'lineno', fn.lineno))
            if isinstance(n, (ast.Raise, ast.ExceptHandler)) and loc is None:
                loc = local_names(fn)
            if isinstance(n, ast.Raise):
                k += 1
                name = '%s.%s raise #%d' % (mod.name.replace(PKG + '.', ''), fn.name, k)
                if n.exc is None:
                    ctx.holds('raise', name, inside_handler(fn, n), 'nothing to raise again outside of a handler', w)
                    continue
                st, txt = exc_class(idx, mod, loc, n.exc)
                ctx.functions.add('%s.%s' % (mod.name, fn.name))
                bad = [x for x in ast.walk(n) if format_ok(x) is False]
                if st == 'bad':
                    ctx.bad('raise', name, txt, w)
                elif bad:
                    ctx.bad('raise', name, 'building the message fails: %s' % ast.unparse(bad[0])[:80], w)
                else:
                    ctx.ok('raise', name, w)
            elif isinstance(n, ast.ExceptHandler):
                ts = [] if n.type is None else n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
                for t in ts:
                    st, txt = exc_class(idx, mod, loc, t)
                    ctx.holds('handler', '%s.%s except %s' % (mod.name.replace(PKG + '.', ''), fn.name, ast.unparse(t)), st != 'bad', txt, w)
                if not ts or any(ast.unparse(t) in ('Exception', 'BaseException') for t in ts):
                    ctx.holds('handler', '%s.%s reports every failure' % (mod.name.replace(PKG + '.', ''), fn.name),
                              any(isinstance(x, ast.Raise) for x in ast.walk(n)), 'every exception is dropped here', w)
            elif format_ok(n) is False:
                ctx.bad('message', '%s.%s' % (mod.name.replace(PKG + '.', ''), fn.name), 'building the text fails: %s' % ast.unparse(n)[:80], w)


def names(ctx):
    """every name used by a function is defined, every member of a package module it uses exists."""
    idx = ctx.idx
    for mod in idx.modules.values():
        if not mod.name.startswith(PKG):
            continue
        w = rel(mod.path)
        src = open(mod.path).read()
        top = symtable.symtable(src, mod.path, 'exec')
        glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        stars = []
        for s in mod.stars:
            m = idx.modules.get(s)
            stars.append(set(m.exported()) if m is not None else None)
        missing = {}

        def go(t):
            for s in t.get_symbols():
                if t.get_type() == 'function' and s.is_global() and s.is_assigned():
                    glob.add(s.get_name())
            for c in t.get_children():
                go(c)
        go(top)

        def check(t):
            for s in t.get_symbols():
                n = s.get_name()
                if s.is_referenced() and s.is_global() and n not in glob and not hasattr(builtins, n) \
                        and n not in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__') \
                        and not any(x is None or n in x for x in stars):
                    missing.setdefault(n, t.get_lineno())
            for c in t.get_children():
                check(c)
        check(top)
        for n, line in missing.items():
            ctx.bad('names', '%s: %s' % (mod.name, n), 'the name is not defined', '%s:%d' % (w, line))
        if not missing:
            ctx.ok('names', mod.name + ' uses defined names', w)
        if '__getattr__' in mod.names:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, (ast.Name, ast.Attribute)):
                r = idx.resolve_expr(mod, n.value)
                if r is None or r[0] != 'mod' or '__getattr__' in r[1].names or r[1].stars or n.attr.startswith('__'):
                    continue
                x = idx.module_attr(r[1], n.attr)
                if x[0] == 'ext' and x[1] == r[1].name + '.' + n.attr and n.attr not in r[1].names and not binary(r[1], n.attr):
                    dyn = table(r[1])
                    if dyn is not None and n.attr in dyn:
                        continue
                    # a local name may hide the module
                    if shadowed(mod, n):
                        continue
                    ctx.bad('names', '%s: %s' % (mod.name, ast.unparse(n)), 'module %s has no %s' % (r[1].name, n.attr), '%s:%d' % (w, n.lineno))
        ctx.sites += 1


def table(m):
    """names a module may add to its own namespace at run time; None: it adds none."""
    if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'globals' for n in ast.walk(m.tree)):
        return None
    out = {k.value for n in ast.walk(m.tree) if isinstance(n, ast.Dict) for k in n.keys if isinstance(k, ast.Constant)}
    try:
        import numpy
        return out | set(dir(numpy))
    except ImportError:
        class All(set):
            def __contains__(self, x):
                return True
        return All()


def binary(m, name):
    import glob
    import os
    return bool(glob.glob(os.path.join(os.path.dirname(m.path), name + '*'))) or name == 'libtomo'


def shadowed(mod, n):
    base = n
    while isinstance(base, ast.Attribute):
        base = base.value
    for f in ast.walk(mod.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is n for x in ast.walk(f)) \
                and base.id in local_names(f) and not any(isinstance(i, (ast.Import, ast.ImportFrom)) and any(
                    (y.asname or y.name).split('.')[0] == base.id for y in i.names) for i in ast.walk(f)):
            return True
    return False
