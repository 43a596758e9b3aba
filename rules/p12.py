"""Extension module interface: exported names, argument names and defaults, and the calls the package makes."""
import ast
from pyfront import rel
from notes import VALUE_NOTE
TECHNIQUE = 'interface queries over the pybind11 module definition and every call site of the package'
NOTE = ('The exported signatures are read from the module definition in C++ (clang syntax tree); every call of an '
        'exported function in the package must bind to one of its overloads. Trusted: the C++ reader; calls through '
        'values other than the module and the active-function table are not seen.')
MIN_OBLIGATIONS = 30

SPECS = [('kick', 'kick', 'double', ''), ('drift', 'drift', 'double', ''), ('kick_up', 'kick_up', 'double', ''),
         ('kick_down', 'kick_down', 'double', ''), ('drift_up', 'drift_up', 'double', ''),
         ('drift_down', 'drift_down', 'double', ''), ('back_project', 'back_project', 'double', ''),
         ('project', 'project', 'double', '')]
for r in ('double', 'float'):
    SPECS += [('kick_and_drift', 'track_array', r, 'array'), ('kick_and_drift', 'track_scalar', r, 'scalar'),
              ('count_particles_in_bins', 'count_particles', r, ''),
              ('count_particles_in_bins_multi', 'count_particles_multi', r, ''), ('reconstruct', 'reconstruct', r, ''),
              ('reconstruct_multi', 'reconstruct_multi', r, ''), ('make_phase_space', 'make_phase_space', r, '')]
SPECS.append(('kick_and_drift', 'track_machine', 'double', ''))
TABLE = ('kick_and_drift', 'reconstruct', 'make_phase_space')


def handles(mod):
    """names that stand for the extension module / the active-function table, anywhere in the module."""
    lib, conf = set(), set()
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                full = (getattr(n, 'module', None) or '') + '.' + a.name
                nm = a.asname or a.name
                if full.endswith('cpp_routines.libtomo') or full == '.libtomo' or full.endswith('.libtomo'):
                    lib.add(nm)
                if full.endswith('tomo_config.AppConfig') or full.endswith('.AppConfig'):
                    conf.add(nm)
    return lib, conf


def binds(b, npos, kws, star):
    names = b['args']
    if npos > len(names):
        return False
    if any(k not in names[npos:] for k in kws):
        return False
    if star:
        return True
    return all(n in kws or n in b['defaults'] for n in names[npos:])


def run(ctx):
    for n, s, r, pick in SPECS:
        ctx.binding(n, 'bind.' + s, r, pick, aspects=('names',), rule='signature')
    ctx.part('call-site', 'call sites', sites, ctx)
    ctx.part('arity', 'module definition', arity, ctx)
    o = ['tracking.particles.Particles.homogeneous_distribution', 'tracking.tracking.Tracking.kick_and_drift_self',
         'compat.fortran.write_plotinfo']
    ctx.model('tracking.tracking.Tracking.track', 'tracks.track', aspects=(), calls=['libtomo.kick_and_drift'], opaque=o)
    ctx.model('tomography.tomography.Tomography.run', 'tomo.run', aspects=(), calls=['libtomo.reconstruct'])
    ctx.model('tomography.tomography_multibunch.Tomography.run', 'tomo.run_multi', aspects=(),
              calls=['libtomo.reconstruct_multi'])


def arity(ctx):
    nat = ctx.cpp
    for b in nat.bindings():
        fns = nat.by_name.get(b['fn'], [])
        what = '%s<%s> binds %s' % (b['name'], b['real'], b['fn'])
        w = '%s:%d' % (rel(b['cfile']), b['line'])
        if not fns:
            ctx.undecided('arity', what, 'native function not found', w)
            continue
        ctx.holds('arity', what, any(len(f.args.args) == len(b['args']) for f in fns),
                  '%d argument names for a function of %s parameters' % (len(b['args']),
                                                                        [len(f.args.args) for f in fns]), w)


def sites(ctx):
    bs = {}
    for b in ctx.cpp.bindings():
        bs.setdefault(b['name'], []).append(b)
    if not bs:
        ctx.undecided('call-site', 'exports', 'no module definition found')
        return
    for m in ctx.idx.modules.values():
        if m.name.startswith('spec.'):
            continue
        lib, conf = handles(m)
        if not lib and not conf:
            continue
        fn = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(f):
                    fn[id(n)] = f.name
        calls = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        seen = {}
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)):
                continue
            if not (n.value.id in lib or n.value.id in conf and n.attr in TABLE):
                continue
            if n.attr.startswith('__'):
                continue
            w = '%s:%d' % (rel(m.path), n.lineno)
            where = fn.get(id(n), '<module>')
            k = (where, n.attr)
            seen[k] = seen.get(k, 0) + 1
            what = '%s.%s uses %s #%d' % (m.name, where, n.attr, seen[k])
            ctx.sites += 1
            if n.attr not in bs:
                ctx.bad('call-site', what, 'the extension module exports no %s' % n.attr, w)
                continue
            c = calls.get(id(n))
            if c is None:
                ctx.ok('call-site', what, w)
                continue
            if any(isinstance(a, ast.Starred) for a in c.args):
                ctx.undecided('call-site', what, 'argument list built at run time', w)
                continue
            kws = [k.arg for k in c.keywords if k.arg]
            star = any(k.arg is None for k in c.keywords)
            ok = any(binds(b, len(c.args), kws, star) for b in bs[n.attr])
            ctx.holds('call-site', what, ok, 'no overload takes %d positional arguments%s' %
                      (len(c.args), ' and ' + ', '.join(kws) if kws else ''), w)
