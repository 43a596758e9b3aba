"""Device and precision configuration: typestate over all histories of the configuration calls."""
import os
import typestate as ts
from typestate import Machine, State, Ext, App, Func, Cls, Ref, Mod
from pyfront import rel
TECHNIQUE = 'typestate: exhaustive abstract interpretation of the configuration code over all histories of its calls (finite state)'
NOTE = ('Device, precision, loaded kernel modules, kernel handles and the active function table form the state; every configuration call '
        'is interpreted from the source in every reachable state, external modules (numpy, CuPy, libtomo) are uninterpreted names with '
        'one representative of every kind, and the invariants are checked in every state reached. The casts are also compared with '
        'their reference models.')
MIN_OBLIGATIONS = 40
CONF = 'longitudinal_tomography.utils.tomo_config'
PKG = 'longitudinal_tomography'
KD = 'longitudinal_tomography.python_routines.kick_and_drift_cuda'
RC = 'longitudinal_tomography.python_routines.reconstruct_cuda'
DT = 'longitudinal_tomography.python_routines.data_treatment'
LIB = 'longitudinal_tomography.cpp_routines.libtomo'
# one representative of every kind of name
NAMES = {'numpy': ['zeros', 'sum', 'only_numpy', 'ndarray', 'float64', 'pi', '_private', '_data', '__getattr__', 'reconstruct'],
         'cupy': ['zeros', 'sum', 'only_cupy', 'ndarray', 'float64', 'pi', '_core', '__name__', 'reconstruct']}
NOT_CALLABLE = ('pi', '_data', '_core', '__name__')
OPS = [('use_cpu', ()), ('use_gpu', ()), ('set_single_precision', ()), ('set_double_precision', ())]
PREC = {'single': Ext('numpy.float32'), 'double': Ext('numpy.float64')}


def run(ctx):
    ctx.model('utils.tomo_config.cast_to_cpu', 'conf.to_cpu')
    ctx.model('utils.tomo_config.cast_to_gpu', 'conf.to_gpu')
    ctx.part('history', 'configuration histories', histories, ctx)


def canon(st):
    seen = {}

    def show(v):
        if isinstance(v, Ref):
            if v.n in seen:
                return '#%d' % seen[v.n]
            seen[v.n] = len(seen)
            k, x = st.heap[v.n]
            if k == 'globals':
                return 'globals ' + x
            if isinstance(x, dict):
                return k + '{' + ', '.join('%s: %s' % (show(a), show(b)) for a, b in sorted(x.items(), key=lambda p: repr(p[0]))) + '}'
            return '[' + ', '.join(show(a) for a in x) + ']'
        if isinstance(v, tuple):
            return '(' + ', '.join(show(a) for a in v) + ')'
        return repr(v)
    return '\n'.join(['%s.%s=%s' % (c, a, show(v)) for c, d in sorted(st.cattr.items()) for a, v in sorted(d.items())]
                     + ['%s.%s=%s' % (m, a, show(v)) for m, g in sorted(st.globs.items()) for a, v in sorted(g.items())]
                     + sorted(st.loaded))


def histories(ctx):
    idx = ctx.idx
    m = Machine(idx, {CONF, KD, RC, DT}, NAMES, lambda n: n.split('.')[-1] not in NOT_CALLABLE,
                truthy=('os.path.isfile', 'os.path.exists'))
    conf = idx.mod(CONF)
    pkg = idx.mod(PKG)
    w = rel(conf.path)
    probe = {n: Func(idx.func(CONF, n), conf) for n in ('cast', 'cast_to_cpu')}
    appconf = Cls(idx.cls(CONF, 'AppConfig'))
    start = State()
    m.st, m.dec, m.pos, m.memo, m.depth = start, [], 0, {}, 0
    m.load(conf)
    level = [(start, ('double', 'CPU'), ())]
    seen = set()
    n = 0
    while level and n < 60:
        nxt = []
        for st, ghost, hist in level:
            k = (canon(st), ghost)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            state(ctx, m, st, ghost, hist, w, appconf, probe)
            for op, args in OPS:
                fn = idx.module_attr(pkg, op)
                g = list(ghost)
                if 'precision' in op:
                    g[0] = 'single' if 'single' in op else 'double'
                else:
                    g[1] = 'GPU' if 'gpu' in op else 'CPU'
                for who, f, a in ((PKG, Func(fn[1], pkg), args), ('AppConfig', None, args)):
                    name = '%s.%s' % (who.split('.')[-1], op)
                    out = m.outcomes(st, f, a) if f else method(m, st, appconf, op, a)
                    for s, v, exc in out:
                        h = hist + (name,)
                        if exc is not None:
                            if exc in ('CudaCompilationException',):
                                continue
                            ctx.bad('history', ' > '.join(h), 'raises %s' % exc, w)
                            continue
                        s.events.clear()
                        nxt.append((s, tuple(g), h))
            # a negative device id is ignored
            for s, v, exc in method(m, st, appconf, 'use_gpu', (-1,)):
                ctx.holds('history', label(hist) + ' > AppConfig.use_gpu(-1) changes nothing', exc is None and canon(s) == canon(st),
                          'the state is changed by an ignored device id', w)
        level = nxt
    ctx.holds('history', 'the configuration has finitely many states', n < 60, 'the number of states grows with the history', w)
    ctx.functions |= m.visited
    ctx.sites += m.steps


def method(m, st, cls, name, args):
    m.st = st
    m.depth = 0
    return m.outcomes(st, m.getattr(cls, name), args)


def label(h):
    return ' > '.join(h) if h else 'import'


def state(ctx, m, st, ghost, hist, w, appconf, probe):
    prec, dev = ghost
    H = label(hist)

    def one(name, *args):
        r = method(m, st, appconf, name, args)
        return [v if e is None else 'raises ' + e for _, v, e in r]
    got = one('get_precision')
    ctx.holds('precision', H + ': get_precision', all(v == PREC[prec] for v in got), 'it is %r after %s was set' % (got, prec), w)
    got = one('is_gpu_enabled')
    ctx.holds('device', H + ': is_gpu_enabled', all(v is (dev == 'GPU') for v in got), 'it is %r on the %s' % (got, dev), w)
    g = st.globs[CONF]
    for name, want in table(ctx, dev).items():
        v = g.get(name)
        ctx.holds('table', '%s: %s' % (H, name), v == want, 'conf.%s is %r where %r is required' % (name, v, want), w)
    for name in ('AppConfig', 'GPUDev'):
        ctx.holds('table', '%s: %s' % (H, name), isinstance(g.get(name), Cls), 'conf.%s is overwritten' % name, w)
    for name in ('cast', 'cast_to_cpu', 'cast_to_gpu'):
        ctx.holds('table', '%s: %s' % (H, name), isinstance(g.get(name), Func), 'conf.%s is overwritten' % name, w)
    for name, on_gpu in (('cast', dev == 'GPU'), ('cast_to_cpu', False), ('cast_to_gpu', True)):
        for s, v, exc in m.outcomes(st, g[name], [App('array')]):
            r = repr(v)
            other = PREC['single' if prec == 'double' else 'double'].name
            ctx.holds('cast', '%s: %s uses the precision' % (H, name), exc is None and PREC[prec].name in r and other not in r,
                      'the array becomes %s in %s precision' % (exc or r, prec), w)
            ctx.holds('cast', '%s: %s uses the device' % (H, name), exc is None and ('cupy.' in r) == on_gpu,
                      'the array becomes %s on the %s' % (exc or r, 'GPU' if on_gpu else 'CPU'), w)
    if dev == 'GPU':
        for mod in (KD, RC):
            handles = {}
            for k, v in st.globs.get(mod, {}).items():
                reach(st, k, v, handles, set())
            if not handles:
                ctx.undecided('kernels', '%s: kernels of %s' % (H, mod.split('.')[-1]), 'no kernel handles found', w)
            for k, v in sorted(handles.items()):
                r = repr(v)
                ok = '_%s.cubin' % prec in r and r.count('.cubin') == 1
                base = 'kick_and_drift' if mod == KD else 'reconstruct'
                ctx.holds('kernels', '%s: %s.%s' % (H, mod.split('.')[-1], k), ok and '/%s_%s.cubin' % (base, prec) in r,
                          'the kernel is %s in %s precision' % (r, prec), rel(ctx.idx.mod(mod).path))


def reach(st, k, v, out, seen):
    if isinstance(v, App) and v.fn == '.get_function':
        out[k] = v
    elif isinstance(v, Ref) and v.n not in seen:
        seen.add(v.n)
        kind, x = st.heap[v.n]
        if kind in ('inst', 'dict') and not isinstance(x.get('__class__'), Cls):
            for a, b in x.items():
                reach(st, '%s[%s]' % (k, a), b, out, seen)
        elif kind == 'list':
            for a, b in enumerate(x):
                reach(st, '%s[%s]' % (k, a), b, out, seen)


def table(ctx, dev):
    idx = ctx.idx
    if dev == 'CPU':
        t = {n: Ext(LIB + '.' + n) for n in ('kick_and_drift', 'reconstruct', 'make_phase_space')}
        lib, only, missing = 'numpy', 'only_numpy', 'only_cupy'
    else:
        t = {'kick_and_drift': Func(idx.func(KD, 'kick_and_drift_cuda'), idx.mod(KD)), 'reconstruct': Func(idx.func(RC, 'reconstruct_cuda'), idx.mod(RC)),
             'make_phase_space': Func(idx.func(DT, 'make_phase_space'), idx.mod(DT))}
        lib, only, missing = 'cupy', 'only_cupy', 'only_numpy'
    t['device'] = dev
    for n in ('zeros', 'sum', 'ndarray', 'float64', only):
        t[n] = Ext(lib + '.' + n)
    t[missing] = None
    return t
