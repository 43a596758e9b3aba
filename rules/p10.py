"""Native memory is released exactly once, however a call ends."""
import owner
from pyfront import rel
TECHNIQUE = 'typestate analysis of every native allocation over all normal and exceptional exits'
NOTE = ('Every new / malloc of an exported function is followed through assignments, helper functions, lambdas, catch handlers and capsules; '
        'branches are kept apart by their conditions. Every call of Python code (callback, attribute, conversion) and every throw '
        'statement is an exceptional exit. Running out of memory is not an exit. Memory handed to a construct that is not modelled '
        'is undecided. Trusted: the C++ reader; pybind11: a capsule calls its deleter once, an array with a base keeps the base alive.')
MIN_OBLIGATIONS = 10


def run(ctx):
    done = set()
    for b, fn in ctx.exported():
        if (fn.cfile, fn.lineno) in done:
            continue
        done.add((fn.cfile, fn.lineno))
        tag = 'libtomo.%s/%d' % (b['name'], len(b['args']))
        ctx.part('released-once', tag, check, ctx, tag, b, fn)


def check(ctx, tag, b, fn):
    o = owner.Owner(ctx.cpp, b['real'])
    at = '%s:%d' % (rel(fn.cfile), fn.lineno)
    try:
        normal, exc = o.entry(fn)
    except owner.TooMany:
        ctx.undecided('released-once', tag, 'too many paths', at)
        return
    ctx.functions |= o.visited
    ctx.sites += len(o.sites) + len(o.uses)
    for site, (w, stack) in sorted(o.sites.items()):
        name = '%s: allocation in %s (line %s)' % (tag, stack[-1], w.rsplit(':', 1)[-1])
        # every exit
        ends = [('normal', s, '') for s in normal] + [('exceptional', s, ' after %s (%s)' % (ty, org[1] if org else '?')) for ty, org, s in exc]
        for kind in ('normal', 'exceptional'):
            mine = [(s, why, st[0]) for k, s, why in ends if k == kind for aid, st in s.heap.items() if aid[0] == site]
            leak = [why for s, why, st in mine if st == 'live']
            n = '%s, %s exits' % (name, kind)
            if not mine:
                continue
            if leak:
                ctx.bad('released-once', n, 'the memory is never released when the call ends%s' % (leak[0] or ' normally'), w)
            elif any(st == 'escaped' for _, _, st in mine):
                ctx.undecided('released-once', n, o.unsure.get(site, 'ownership leaves the analysed code'), w)
            else:
                ctx.ok('released-once', n, w)
        for rule, what in (('release', 'released at most once and by the matching operator'),
                           ('use-after-release', 'not used after its release'),
                           ('kept-alive', 'kept alive by every array that shows it')):
            bad = [(ww, m) for (r, s, ww), m in o.bad.items() if r == rule and s == site]
            n = '%s, %s' % (name, what)
            for ww, m in bad:
                ctx.bad(rule, n, m, ww)
            if not bad:
                ctx.ok(rule, n, w)
    ctx.ok('analysed', '%s: %d allocations on %d normal and %d exceptional paths' % (tag, len(o.sites), len(normal), len(exc)), at)
    # exceptions of Python code
    py = [org for ty, org, s in exc if org and org[0] == 'python']
    hidden = [(org, ww) for ty, org, ww in o.swallowed if org and org[0] == 'python']
    if py or hidden or o.replaced:
        n = '%s: an exception of Python code reaches the caller' % tag
        if hidden:
            ctx.bad('exception-passes', n, 'the exception raised at %s is dropped here' % hidden[0][0][1], hidden[0][1])
        elif o.replaced:
            org, ty, ww = o.replaced[0]
            ctx.bad('exception-passes', n, 'the exception raised at %s is replaced by %s' % (org[1], ty), ww)
        else:
            ctx.ok('exception-passes', n, at)
