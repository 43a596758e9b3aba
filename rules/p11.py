"""Native code stays inside of its buffers."""
import access
import contract
TECHNIQUE = 'index analysis of every element access of the native code against the extent of its buffer'
NOTE = ('Every element read, element write and block copy of the exported functions is extracted with its index term, loops and path '
        'condition; the index is evaluated over all iterations of small index spaces in which the arguments have their documented sizes '
        'and ranges (turns = turns per frame times frames less one, start within the frames) and has to lie inside of the '
        'buffer. Trusted: the C++ reader; sizes of arrays handed in by the caller are assumptions of the property.')
MIN_OBLIGATIONS = 40


def run(ctx):
    done = set()
    for b, fn in ctx.exported():
        con = contract.contract(b)
        if con is None or (fn.cfile, fn.lineno) in done:
            continue
        done.add((fn.cfile, fn.lineno))
        tag = 'libtomo.%s/%d' % (b['name'], len(b['args']))
        ctx.part('in-bounds', tag, check, ctx, tag, b, fn, con)


def check(ctx, tag, b, fn, con):
    e = ctx.cengine(ctx.cpp, b['real'], None, ())
    e.run_c(fn)
    ctx.functions |= e.visited
    T = access.Target(e, b, fn, con)
    groups = {}
    for a in T.accs:
        groups.setdefault((a.what, a.fn, a.where, a.write), []).append(a)
    for (what, f, w, wr), accs in groups.items():
        name = '%s: %s of %s in %s (%d)' % (tag, 'write' if wr else 'read', what.split(':')[0], f.split('.')[-1],
                                            int(w.rsplit(':', 1)[1]))
        rs = []
        seen = set()
        for a in accs:
            k = (a.idx, a.n, a.loops, a.pc)
            if k in seen:
                continue
            seen.add(k)
            rs.append(access.bounds(T, a))
        ctx.sites += len(accs)
        out = [r for r in rs if r[0] == 'out']
        unk = [r for r in rs if r[0] == 'unknown']
        if out:
            ctx.bad('in-bounds', name, 'reaches ' + out[0][1], w)
        elif unk:
            ctx.undecided('in-bounds', name, unk[0][1], w)
        else:
            ctx.ok('in-bounds', name, w)
