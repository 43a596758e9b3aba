"""What is handed in is left as it was."""
import access
import contract
from alias import Aliases
from pyfront import rel
TECHNIQUE = 'may-alias and mod analysis of every function with interprocedural summaries; write sets of the native functions'
NOTE = ('A flow-sensitive may-alias analysis finds, for every function and method of the package, the parameters whose storage a store, '
        'an augmented assignment, an in-place method or numpy function, or a callee may write, through views and attributes kept by '
        'constructors and setters; every store of the compiled functions is traced to the argument it reaches. Only documented outputs '
        'may be written. An augmented assignment to what may be a number is not decided.')
MIN_OBLIGATIONS = 150
# documented outputs and conversions in place
OUTPUTS = {
    'kick_and_drift': {'xp', 'yp', 'denergy', 'dphi'}, 'kick': {'denergy'}, 'drift': {'dphi'}, 'back_project': {'weights'},
    'project': {'recreated'}, 'txt_input_to_machine': {'input_array'},
}
FIELDS = {'homogeneous_distribution': {'machine.dEbin'}, 'raw_data_to_profiles': {'machine.dtbin', 'machine.synch_part_x'}}
NATIVE = {'kick': {1}, 'drift': {1}, 'kick_up': {1}, 'kick_down': {1}, 'drift_up': {0}, 'drift_down': {0}, 'kick_and_drift': {0, 1, 2, 3},
          'project': {0}, 'back_project': {0}, 'count_particles_in_bins': {0}, 'count_particles_in_bins_multi': {0}}
SKIP = ('python_routines',)         # work on device buffers in place


def functions(idx):
    for m in idx.modules.values():
        if not m.name.startswith('longitudinal_tomography') or any('.' + s + '.' in m.name + '.' for s in SKIP):
            continue
        for n, e in m.names.items():
            if e[0] == 'func' and e[1].mod is m:
                f = e[1]
                while f is not None:
                    yield m, None, n, f
                    f = getattr(f, 'prev_def', None)
            elif e[0] == 'class' and e[1].mod is m:
                for tab in (e[1].methods, e[1].getters, e[1].setters):
                    for k, f in tab.items():
                        while f is not None:
                            yield m, e[1], k, f
                            f = getattr(f, 'prev_def', None)


def public(name):
    return not name.startswith('_') or name == '__init__'


def run(ctx):
    al = Aliases(ctx.idx)
    ctx.part('arguments', 'functions', arguments, ctx, al)
    ctx.part('kept', 'classes', kept, ctx, al)
    for b, fn in ctx.exported():
        tag = 'libtomo.%s/%d<%s>' % (b['name'], len(b['args']), b['real'])
        ctx.part('native', tag, native, ctx, tag, b, fn)


def arguments(ctx, al):
    done = set()
    for m, c, n, f in functions(ctx.idx):
        if not public(n) or id(f) in done:
            continue
        done.add(id(f))
        ctx.functions.add((m.name + '.' + (c.name + '.' if c else '') + n))
        s = al.summary(f)
        path = rel(m.path)
        tag = '%s.%s' % (m.name.split('.', 1)[-1], (c.name + '.' if c else '') + n)
        ps = [p.arg for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        if c is not None and 'staticmethod' not in getattr(f, 'deco', []):
            ps = ps[1:]
        if f.args.vararg:
            ps.append(f.args.vararg.arg)
        for p in ps:
            ctx.sites += 1
            if p in OUTPUTS.get(n, ()):
                continue
            hit = may = None
            for r, w in s.mut.items():
                if r[0] == 'p' and (r[1] == p or r[1].startswith(p + '.')):
                    hit = hit or (r[1], w)
                elif r[0] == 'f' and r[1].split('.')[0] == p and '%s.%s' % (r[1], r[2]) not in FIELDS.get(n, ()):
                    hit = hit or ('%s.%s' % (r[1], r[2]), w)
            for r, w in s.maybe.items():
                if r[1] == p or r[1].startswith(p + '.'):
                    may = may or (r[1], w)
            name = '%s leaves its argument %s unchanged' % (tag, p)
            if hit:
                ctx.bad('arguments', name, '%s may be modified in place: %s' % (hit[0], hit[1][1]), '%s:%d' % (path, hit[1][0]))
            elif may:
                ctx.undecided('arguments', name, 'if %s is an array it is modified in place: %s' % (may[0], may[1][1]), '%s:%d' % (path, may[1][0]))
            else:
                ctx.ok('arguments', name, '%s:%d' % (path, f.lineno))


def kept(ctx, al):
    """attributes that share memory with an argument of a constructor, or hold the data given to a setter, are not written by other methods."""
    idx = ctx.idx
    classes = {}
    for m, c, n, f in functions(idx):
        if c is not None:
            classes.setdefault(c, []).append((n, f))
    for c, fs in classes.items():
        mro = c.mro(idx)
        share, writes = {}, {}
        for d in mro:
            setters = {id(f) for f in d.setters.values()}
            for n, f in classes.get(d, []):
                s = al.summary(f)
                if id(f) in setters:
                    for a in s.retain:
                        share.setdefault(a, (n, f.args.args[-1].arg, f))
                    continue
                if not n.startswith('_') or n == '__init__':
                    for a, roots in s.retain.items():
                        for r in roots:
                            if r[0] == 'p':
                                share.setdefault(a, (n, r[1], f))
                for r, w in s.mut.items():
                    if r[0] == 'a':
                        writes.setdefault(r[2], []).append((d, n, f, w))
        for a, (n, p, f) in sorted(share.items()):
            name = '%s: %s, given as argument %s of %s, is not written in place' % (c.name, a, p, n)
            ws = [w for w in writes.get(a, [])]
            if ws:
                d, k, g, w = ws[0]
                ctx.bad('kept', name, '%s may modify it: %s' % (k, w[1]), '%s:%d' % (rel(d.mod.path), w[0]))
            else:
                ctx.ok('kept', name, '%s:%d' % (rel(c.mod.path), f.lineno))


def native(ctx, tag, b, fn):
    e = ctx.cengine(ctx.cpp, b['real'], None, ())
    e.run_c(fn)
    ctx.functions |= e.visited
    con = contract.contract(b)
    accs = access.Target(e, b, fn, con).accs if con else access.collect(e)
    outs = NATIVE.get(b['name'], set())
    ps = [p.arg for p in fn.args.args]
    hit = {}
    for a in accs:
        ctx.sites += 1
        if a.write and a.what in ps:
            hit.setdefault(ps.index(a.what), a)
    for i, p in enumerate(ps):
        if i in outs:
            continue
        name = '%s leaves its argument %s unchanged' % (tag, p)
        if i in hit:
            ctx.bad('native', name, 'written in %s' % hit[i].fn, hit[i].where)
        else:
            ctx.ok('native', name, '%s:%d' % (rel(fn.cfile), fn.lineno))
