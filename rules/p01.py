"""Tracking is reversible: frames belong to one orbit, whichever frame it is started from."""
import terms as t
from pyfront import rel
from unfold import Unfold
TECHNIQUE = 'composition of extracted kick/drift and tracking terms with their reverse; equality in a term algebra'
NOTE = ('The terms extracted for a whole tracking run are written out for small numbers of frames and turns per frame and composed: a run '
        'from one frame, started again from each frame it reached, has to give the same coordinates in every frame. Voltages, '
        'phases, coefficients, coordinates stay symbols, so equality holds for all of their values (over the reals; phases within one '
        'wrap length where self-fields fold them). For the Python trackers kick and drift are taken as inverse pairs, which is shown for the '
        'native routines separately.')
MIN_OBLIGATIONS = 30
SIZES = {'quick': [(1, 2), (2, 3)], 'thorough': [(1, 2), (2, 3), (3, 3), (1, 4)]}


def run(ctx):
    for b, fn in ctx.exported():
        k = b['name']
        tag = 'libtomo.%s/%d<%s>' % (k, len(b['args']), b['real'])
        if k in ('kick', 'drift') and len(fn.args.args) in (6, 8):
            ctx.part('one-turn', tag, flagged, ctx, tag, fn, b['real'], k)
        elif k == 'kick_and_drift' and len(fn.args.args) == 18:
            p = fn.args.args[9]
            tag += ' (phase difference %s)' % ('per turn' if 'array_t' in getattr(p, 'ctype', '') else 'constant')
            ctx.part('orbit', tag, compiled, ctx, tag, fn, b['real'])
    for up, down, w in (('kick_up', 'kick_down', 1), ('drift_up', 'drift_down', 0)):
        ctx.part('one-turn', up, both, ctx, up, down, w)
    for n in ('kick_and_drift', 'kick_and_drift_self'):
        ctx.part('orbit', n, python, ctx, n)


def isym(fn, i):
    p = fn.args.args[i]
    return t.sym(p.arg, True)


def cells(x, n=2):
    return [t.select(x, t.num(i)) for i in range(n)]


def where(fn):
    return '%s:%d' % (rel(fn.cfile), fn.lineno)


def flagged(ctx, tag, fn, real, k):
    s = ctx.csummary(fn, real=real)
    ps = [p.arg for p in fn.args.args]
    w, n, up = (ps[1], ps[5], ps[7]) if k == 'kick' else (ps[1], ps[3], ps[5])
    u = Unfold()

    def step(flag, buf):
        m = {t.sym(n, True): t.num(2), t.sym(up): flag, t.sym(up, True): flag}
        if buf is not None:
            m[t.sym(w)] = t.app('array', *buf)
        return cells(u(t.subst(s.params[w], m)))
    first = cells(t.sym(w))
    for a, b, name in ((t.TRUE, t.FALSE, 'up then down'), (t.FALSE, t.TRUE, 'down then up')):
        out = step(b, step(a, None))
        for i in range(2):
            ctx.same('one-turn', '%s, %s, restores particle %d' % (tag, name, i), out[i], first[i], where(fn))


def both(ctx, up, down, w):
    fs = {}
    for b, fn in ctx.exported():
        if b['name'] in (up, down):
            fs[b['name']] = (fn, b['real'])
    fu, real = fs[up]
    fd, _ = fs[down]
    su, sd = ctx.csummary(fu, real=real), ctx.csummary(fd, real=real)
    pu, pd = [p.arg for p in fu.args.args], [p.arg for p in fd.args.args]
    n = 7 if up == 'kick_up' else 3
    ren = {}
    for i, (a, b) in enumerate(zip(pu, pd)):
        for k in (True, False):
            ren[t.sym(b, k)] = t.sym(a, k)
    td = t.subst(sd.params[pd[w]], ren)
    tu = su.params[pu[w]]
    u = Unfold()
    m = {t.sym(pu[n], True): t.num(2)}
    for a, b, name in ((tu, td, '%s then %s' % (up, down)), (td, tu, '%s then %s' % (down, up))):
        mid = cells(u(t.subst(a, m)))
        out = cells(u(t.subst(b, dict(m, **{}) | {t.sym(pu[w]): t.app('array', *mid)})))
        for i in range(2):
            ctx.same('one-turn', 'libtomo.%s restores particle %d' % (name, i), out[i], t.select(t.sym(pu[w]), t.num(i)), where(fu))


def starts(D, P):
    """(frame, turns off it) a distribution can be given at."""
    out = [(0, 0), (P - 1, 0)]
    if D > 1:
        out += [(0, 1), (1, 1), (1, -1)] if P > 2 else [(0, 1), (1, -1)]
    return [(r, d) for r, d in out if 0 <= r * D + d <= D * (P - 1)]


def orbits(ctx, tag, rows, w):
    for D, P in SIZES[ctx.tier]:
        for r, d in starts(D, P):
            if (r, d) != (P - 1, 0) and r * D + d >= D * (P - 1):
                continue
            x, y = rows(D, P, r, d, None)
            for q in range(P):
                if (q, 0) == (r, d):
                    continue
                x2, y2 = rows(D, P, q, 0, (x[q], y[q]))
                bad = None
                for f in range(P):
                    for c, a, b in (('phase', x2[f], x[f]), ('energy', y2[f], y[f])):
                        a, b = t.app('tuple', *a), t.app('tuple', *b)
                        if a is not b and bad is None:
                            bad = (f, c, a, b)
                what = '%s: %d frames %d turns apart, started at frame %d%+d turns and again from frame %d' % (tag, P, D, r, d, q)
                if bad is None:
                    ctx.ok('orbit', what, w)
                else:
                    f, c, a, b = bad
                    ctx.same('orbit', '%s: %s in frame %d' % (what, c, f), a, b, w)


def compiled(ctx, tag, fn, real):
    s = ctx.csummary(fn, real=real)
    ps = [p.arg for p in fn.args.args]
    N = 2

    def rows(D, P, rec, delta, start):
        m = {t.sym(ps[i], True): t.num(v) for i, v in ((11, D), (12, rec), (13, delta), (14, D * (P - 1)), (15, N))}
        if start is not None:
            m[t.sym(ps[3])], m[t.sym(ps[2])] = [t.app('array', *z) for z in start]
        u = Unfold()
        out = []
        for w in (ps[0], ps[1]):
            z = u(t.subst(s.params[w], m))
            out.append([[t.select(z, t.num(r * N + i)) for i in range(N)] for r in range(P)])
        return out
    orbits(ctx, tag, rows, where(fn))


def turn_rule(x):
    """kick and drift as the inverse pairs they are."""
    if x.op != 'app' or not isinstance(x.args[0], str):
        return None
    f = x.args[0].rsplit('.', 1)[-1]
    a = x.args[1:]
    if 'libtomo' not in x.args[0]:
        return None
    if f == 'kick' and len(a) == 8 and a[7] in (t.TRUE, t.FALSE):
        k = t.app('kick of a turn', a[0], a[2], a[3], a[4], a[6])
        return t.add(a[1], k) if a[7] is t.TRUE else t.sub(a[1], k)
    if f == 'drift' and len(a) == 6 and a[5] in (t.TRUE, t.FALSE):
        k = t.mul(t.select(a[2], a[4]), a[0])
        return t.sub(a[1], k) if a[5] is t.TRUE else t.add(a[1], k)
    return None


def unfolded(x):
    if x.op == 'app' and x.args[0] == 'floor':
        return t.ZERO
    return turn_rule(x)


def python(ctx, n):
    spec = {'kick_and_drift': 'tracks.step_by_step', 'kick_and_drift_self': 'tracks.with_self_fields'}[n]
    own = n.endswith('self')
    fn, _, s, _ = ctx.pair('tracking.tracking.Tracking.' + n, spec)
    w = '%s:%d' % (rel(fn.mod.path), fn.lineno)

    def S(k, i=False):
        return t.sym('self.' + k, i)

    def rows(D, P, rec, delta, start):
        m = {t.sym('rec_prof', True): t.num(rec), t.sym('deltaturn', True): t.num(delta), S('machine.dturns', True): t.num(D),
             S('machine.nprofiles', True): t.num(P), S('nturns', True): t.num(D * (P - 1))}
        if start is not None:
            (x,), (y,) = start
            if own:
                k = t.num(rec * D)
                width = t.mul(S('machine.h_num'), S('machine.dtbin'), t.select(S('machine.omega_rev0'), k))
                x = t.sub(t.mul(t.add(x, S('particles.xorigin')), width), t.select(S('machine.phi0'), k))
                y = t.mul(t.sub(y, S('machine.synch_part_y')), S('particles.dEbin'))
            m[t.sym('dphi')], m[t.sym('denergy')] = x, y
        u = Unfold(unfolded if own else turn_rule)
        z = u(t.subst(s.ret, m))
        if not (z.op == 'app' and z.args[0] == 'tuple' and len(z.args) == 3):
            raise ValueError('result is not a pair')
        return [[[u(t.select(z.args[1 + i], t.num(r)))] for r in range(P)] for i in range(2)]
    orbits(ctx, 'Tracking.' + n, rows, w)
