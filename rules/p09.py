"""Parallel loops of the native code."""
import ast
import access
import contract
from pyfront import rel
TECHNIQUE = 'dependence analysis of every OpenMP loop: cells touched per iteration, sharing of scalars, exceptions and callbacks'
NOTE = ('For every exported native function the accesses inside of parallel loops are extracted with their index terms and path '
        'conditions; two different iterations must never touch the same cell when one of them writes (evaluated over all '
        'iterations of small index spaces with the documented sizes and ranges of the arguments), scalars written in the loop must '
        'be private or reduced with the matching operator. Trusted: the C++ reader, different array arguments do not overlap.')
MIN_OBLIGATIONS = 25


def run(ctx):
    ctx.part('sharing', 'variables of parallel loops', sharing, ctx)
    done = set()
    for b, fn in ctx.exported():
        tag = 'libtomo.%s<%s>/%d' % (b['name'], b['real'], len(b['args']))
        if b['name'] == 'set_num_threads':
            ctx.part('threads', tag, threads, ctx, tag, b, fn)
            continue
        if (fn.cfile, fn.lineno) in done:
            continue            # the same template for the other precision
        done.add((fn.cfile, fn.lineno))
        ctx.part('independent-iterations', tag, iterations, ctx, tag, b, fn)


def threads(ctx, tag, b, fn):
    e = ctx.cengine(ctx.cpp, b['real'], None, ())
    e.run_c(fn)
    x = [ev for ev in e.trace if ev.kind == 'call' and str(ev.name).endswith('omp_set_num_threads')]
    good = len(x) == 1 and not x[0].pc and not x[0].loops and len(x[0].terms) == 1 \
        and x[0].terms[0].op == 'sym' and x[0].terms[0].args[0] == fn.args.args[0].arg
    if x and not good and (len(x) > 1 or x[0].pc or x[0].loops):
        ctx.undecided('threads', tag, 'the number of threads is set in an unknown way')
    else:
        ctx.holds('threads', tag, good, 'the requested number of threads is not the one that is set',
                  '%s:%d' % (rel(fn.cfile), fn.lineno))


def sharing(ctx):
    nat = ctx.cpp
    for name, fs in sorted(nat.by_name.items()):
        seen = set()
        for f in fs:
            if not rel(f.cfile or '').startswith('longitudinal_tomography/') or (f.cfile, f.lineno) in seen:
                continue
            seen.add((f.cfile, f.lineno))
            for loop, priv in access.regions(f):
                w = '%s:%d' % (rel(f.cfile), loop.lineno)
                what = '%s loop at line %d' % (name, loop.lineno)
                if priv is None:
                    ctx.undecided('sharing', what, 'parallel construct %s is not analysed' % loop.omp['kind'], w)
                    continue
                ctx.functions.add(name)
                res = access.scalars(loop, f, priv)
                bad = [r for r in res if r[0] == 'violation']
                if not bad:
                    ctx.ok('sharing', what, w)
                for _, n, msg, node in bad:
                    ctx.bad('sharing', '%s variable %s' % (what, access.base(n)), 'variable %s %s' % (access.base(n), msg),
                            '%s:%d' % (rel(f.cfile), getattr(node, 'lineno', loop.lineno)))


def iterations(ctx, tag, b, fn):
    con = contract.contract(b)
    e = ctx.cengine(ctx.cpp, b['real'], None, ())
    e.run_c(fn)
    ctx.functions |= e.visited
    if con is None:
        return
    T = access.Target(e, b, fn, con)
    inside = [a for a in T.accs if access.parallel(a.loops) is not None]
    groups = {}
    for a in inside:
        L = a.loops[access.parallel(a.loops)]
        groups.setdefault(L, []).append(a)
    for L, accs in groups.items():
        # buffers written in the region
        todo = [a for a in accs if a.write]
        private = {oid for oid, site, n, ty, init, ev in e.allocs if L in ev.loops}
        while todo:
            a = todo[0]
            oids = set(a.oids)
            mine = [x for x in accs if x.oids & oids]
            todo = [x for x in todo if x not in mine]
            if oids & private:
                continue
            ctx.sites += len(mine)
            what = '%s: %s in %s at line %d' % (tag, a.what.split(':')[0], a.fn.split('.')[-1], L.node.lineno)
            r = access.conflicts(T, L, mine)
            if r[0] == 'clash':
                ctx.bad('independent-iterations', what, r[3], r[1].where)
            elif r[0] == 'free':
                ctx.ok('independent-iterations', what, a.where)
            else:
                ctx.undecided('independent-iterations', what, r[1], a.where)
    for ev in e.trace:
        k = access.parallel(ev.loops)
        if k is None:
            continue
        L = ev.loops[k]
        w = '%s:%d' % (rel(getattr(ev.node, 'cfile', '') or ''), getattr(ev.node, 'lineno', 0))
        if ev.kind == 'raise' and len(ev.tries) <= L.tries:
            ctx.bad('leaves-region', '%s: exception in the loop at line %d' % (tag, L.node.lineno),
                    'an exception thrown by one iteration cannot leave the parallel loop', w)
        if ev.kind == 'call' and str(ev.name).split('.')[-1] in ('callback', '__call__'):
            ctx.bad('leaves-region', '%s: callback in the loop at line %d' % (tag, L.node.lineno),
                    'Python is called from a parallel loop', w)
