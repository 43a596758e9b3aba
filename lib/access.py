"""memory accesses of the native functions: which cell of which buffer each statement touches in each iteration.

The value-flow analysis gives, for every element read or written, the index as a term over the parameters and the
iteration numbers of the surrounding loops, and the condition under which it happens.  The index terms are then
evaluated over all iterations of small index spaces that satisfy the documented sizes of the arguments."""
import ast
import re
import terms as t
import compare
from compare import Finite, Bad, loop_depth
from pyfront import rel, AnalysisError

FAIL = (Bad, OverflowError, ZeroDivisionError, ValueError, TypeError, RecursionError)
PAR = ('OMPParallelForDirective', 'OMPForDirective', 'OMPParallelForSimdDirective', 'OMPForSimdDirective', 'OMPSimdDirective')
GUARDS = ('OMPAtomicDirective', 'OMPCriticalDirective', 'OMPMasterDirective', 'OMPSingleDirective')


class Access:
    def __init__(self, v, idx, n, pc, loops, write, node, fn, guard, seq):
        self.v = v
        self.oids = set(v.chain_oids())
        self.idx, self.n = idx, n           # first cell and number of cells (None: one)
        self.pc, self.loops, self.write = pc, loops, write
        self.node, self.fn, self.guard, self.seq = node, fn, guard, seq

    @property
    def where(self):
        return '%s:%d' % (rel(getattr(self.node, 'cfile', '') or ''), getattr(self.node, 'lineno', 0))

    @property
    def what(self):
        return self.v.tag or t.show(self.v.term)[:40]


def collect(eng):
    out = []
    for e in eng.trace:
        if e.kind != 'store' or e.data.get('idx') is None:
            continue
        v = e.data.get('target') or (e.args[0] if e.args else None)
        if v is None:
            continue
        i, n = e.data['idx'], None
        if i.op == 'app' and i.args[0] == 'rng':
            i, n = i.args[1], i.args[2]
            if e.name == 'rangecopy':
                out.append(Access(e.data['src'], e.data['srcoff'], n, e.pc, e.loops, False, e.node, e.fn, e.guard, e.seq))
        a = Access(v, i, n, e.pc, e.loops, True, e.node, e.fn, e.guard, e.seq)
        a.oids |= set(e.data.get('oids') or ())
        out.append(a)
    for o, i, pc, loops, node, fn, path, guard, seq in eng.reads:
        out.append(Access(o, i, None, pc, loops, False, node, fn, guard, seq))
    return out


def parallel(loops):
    """position of the outermost parallel loop."""
    for k, L in enumerate(loops):
        if L.omp and L.omp['kind'] in PAR:
            return k
    return None


def width(L):
    c = L.omp['clauses'].get('collapse')
    return int(c[0]) if c and c[0].isdigit() else 1


class Space:
    """iterations of a nest of loops on one small instance."""
    LIMIT = 4000

    def __init__(self, v):
        self.v = v
        self.count = 0

    def walk(self, loops, terms, fn, v=None, vec=()):
        """fn(valuation, iteration vector) for every iteration of the nest."""
        v = v or self.v
        if not loops:
            self.count += 1
            if self.count > self.LIMIT:
                raise Bad()
            fn(v, vec)
            return
        L, rest = loops[0], loops[1:]
        need = set()
        todo = set()
        for x in list(terms) + [y.N for y in rest if y.N is not None]:
            todo |= {s for s in t.syms(x) if s in L.mu}
        while todo:
            m = todo.pop()
            need.add(m)
            todo |= {s for s in t.syms(L.mu[m][1]) if s in L.mu} - need
        if L.N is None:
            raise Bad()
        n = v.extent(L.N)
        state = {m: v.ev(L.mu[m][0]) for m in need}
        for k in range(n):
            w = v.sub({L.k: float(k), **state})
            self.walk(rest, terms, fn, w, vec + (k,))
            if k + 1 < n:
                state = {m: w.ev(L.mu[m][1]) for m in need}


def usable(pc, loops):
    """the literals of a path condition that restrict iterations; conditions on whole data sets are left out."""
    ks = {L.k for L in loops} | {m for L in loops for m in L.mu}
    out = []
    for c in pc:
        if t.syms(c) & ks if isinstance(t.syms(c), (set, frozenset)) else set(t.syms(c)) & ks:
            out.append(c)
        elif loop_depth(c) == 0:
            out.append(c)
    return out


class Target:
    """one exported function: its accesses, with the documented shapes of the arguments filled in."""

    def __init__(self, eng, b, fn, con):
        self.b, self.fn, self.con, self.eng = b, fn, con, eng
        self.cname = dict(zip(b['args'], [a.arg for a in fn.args.args]))
        self.arg = {v: k for k, v in self.cname.items()}
        m = {}
        for k, dims in con.shapes.items():
            for x in (t.sym(self.cname.get(k, k)), t.sym(self.cname.get(k, k), True)):
                total = t.ONE
                for i, d in enumerate(dims):
                    y = t.num(0)
                    for part in d.split('+'):
                        y = t.add(y, t.num(int(part)) if part.isdigit() else self.term(part))
                    m[t.app('sel', t.app('shape', x), t.num(i))] = y
                    m[t.app('isel', t.app('shape', x), t.num(i))] = y
                    if i == 0:
                        m[t.app('len', x)] = y
                    total = t.mul(total, y)
                m[t.app('size', x)] = total
        self.m = m
        self.loops = {}
        self.accs = collect(eng)
        for a in self.accs:
            a.idx = t.subst(a.idx, m)
            a.n = None if a.n is None else t.subst(a.n, m)
            a.pc = tuple(t.subst(c, m) for c in a.pc)
            for L in a.loops:
                if L not in self.loops:
                    self.loops[L] = True
                    if L.N is not None:
                        L.N = t.subst(L.N, m)
                    L.mu = {k: (t.subst(x, m), t.subst(y, m)) for k, (x, y) in L.mu.items()}

        self.raises = [(e.seq, e.loops, tuple(t.subst(c, m) for c in e.pc)) for e in eng.trace if e.kind == 'raise']

    def refused(self, a, w):
        """an exception thrown before the access ends this instance."""
        for seq, loops, pc in self.raises:
            if seq > a.seq or set(loops) & set(a.loops):
                continue
            if any(loop_depth(c) > 0 for c in pc):
                continue            # depends on whole data sets
            hit = []
            pcs = list(pc)
            Space(w).walk(list(loops), pcs, lambda v, vec: hit.append(1) if all(v.b(c) for c in pcs) else None)
            if hit:
                return True
        return False

    def term(self, n):
        return t.sym(self.cname.get(n, n), True)

    def instances(self, count, terms=()):
        """small valuations of the arguments within their documented sizes and ranges."""
        con = self.con
        ints = (frozenset(), frozenset().union(*[compare.int_arrays(x) for x in terms]) if terms else frozenset())
        for i in range(count):
            for regime in ('pos', 'mix'):
                seed = compare._h('access', regime, i)
                env = con.inst(seed)
                v = Finite(seed, regime, None, ints)
                fx = {}
                for k, x in env.items():
                    n = self.cname.get(k, k)
                    fx[t.sym(n, True)] = float(x)
                    fx[t.sym(n)] = float(x)
                for j, (k, n) in enumerate(sorted(self.cname.items())):
                    if k not in env:
                        fx[t.sym(n)] = fx[t.sym(n, True)] = 1000.5 + j       # identity of the array
                w = v.sub(fx)
                names = {}
                for k in con.ranges:
                    for y in (t.sym(self.cname.get(k, k)), t.sym(self.cname.get(k, k), True)):
                        names[compare._rnd(w.ev(y))] = k

                def content(v, base, i, names=names, env=env, seed=seed):
                    k = names.get(base)
                    if k is None or not isinstance(i, float) or i != int(i):
                        return None
                    lo, hi = con.ranges[k](env, int(i))
                    if hi <= lo:
                        raise Bad()
                    return float(lo + compare._h(seed, k, i) % (hi - lo))
                Finite.content = staticmethod(content)
                try:
                    yield w, env
                finally:
                    Finite.content = None

    def size(self, a, w, env):
        """number of cells of the buffer of an access on an instance; None if it is not known."""
        for oid, site, n, ty, init, e in self.eng.allocs:
            if oid in a.oids:
                return int(w.num(t.subst(n, self.m)))
        k = self.arg.get(a.v.tag, a.v.tag)
        f = self.con.sizes.get(k)
        return None if f is None else f(env)


def conflicts(target, region, accs, count=14):
    """('clash', a, b, text) | ('free', instances) | ('unknown', reason) for the accesses of one buffer in one region."""
    L = region
    used = 0
    why = ''
    for v, env in target.instances(count, [a.idx for a in accs]):
        hit = {}
        try:
            for a in accs:
                p = a.loops.index(L)
                pcs = usable(a.pc, a.loops)

                def one(w, vec, a=a, p=p, pcs=pcs):
                    for c in pcs:
                        if not w.b(c):
                            return
                    i = compare._rnd(w.ev(a.idx))
                    cells = [i]
                    if a.n is not None:
                        cells = [i + j for j in range(int(w.num(a.n)))]
                    outer, par = vec[:p], vec[p:p + width(L)]
                    for c in cells:
                        hit.setdefault((outer, c), []).append((par, a))
                Space(v).walk(list(a.loops), [a.idx] + pcs, one)
        except FAIL as e:
            why = '%s %s' % (type(e).__name__, e)
            continue
        used += 1
        for (outer, c), xs in hit.items():
            for par, a in xs:
                if not a.write:
                    continue
                for par2, b in xs:
                    if par2 != par and not (a.guard and b.guard):
                        return 'clash', a, b, 'iterations %s and %s both reach cell %s (%s)' % (
                            list(par), list(par2), c, ', '.join('%s=%g' % kv for kv in sorted(env.items())))
    if used < 4:
        return 'unknown', why or 'no usable instance'
    return 'free', used


def bounds(target, a, count=None):
    """('out', text) | ('in', instances) | ('unknown', reason): does the access stay inside of its buffer?"""
    used = 0
    why = ''
    pcs = usable(a.pc, a.loops)
    for w0, env in target.instances(count or target.con.count, [a.idx]):
        bad = []
        try:
            if target.refused(a, w0):
                continue
            n = target.size(a, w0, env)
            if n is None:
                return 'unknown', 'size of %s not known' % a.what

            def one(w, vec):
                for c in pcs:
                    if not w.b(c):
                        return
                i = w.num(a.idx)
                m = 1 if a.n is None else int(w.num(a.n))
                if m > 0 and (i < 0 or i + m > n):
                    bad.append('cell %g of %d (iteration %s; %s)' % (i + m - 1 if i >= 0 else i, n, list(vec), ', '.join(
                        '%s=%g' % kv for kv in sorted(env.items()))))
            Space(w0).walk(list(a.loops), [a.idx] + pcs + ([a.n] if a.n is not None else []), one)
        except FAIL as e:
            why = '%s %s' % (type(e).__name__, e)
            continue
        used += 1
        if bad:
            return 'out', bad[0]
    return ('in', used) if used >= 4 else ('unknown', why or 'no usable instance')


# ------------------------------------------------------------------------------------------------ scalars
def base(n):
    return re.sub(r'__\d+$', '', n)


def names(txts):
    out = set()
    for x in txts or ():
        out |= {y.strip() for y in x.split(':')[-1].split(',') if y.strip()}
    return out


def shallow(stmts, into_guard=True):
    """all nodes of the statements, function definitions excluded."""
    st = list(stmts)[::-1]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if not into_guard and isinstance(n, ast.With) and getattr(n, 'omp', None) and n.omp['kind'] in GUARDS:
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n)) + list(getattr(n, 'inc', None) or [])))


def stores(stmts, into_guard=True):
    for n in shallow(stmts, into_guard):
        if isinstance(n, ast.Assign):
            for x in n.targets:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        yield y.id, n
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            yield n.target.id, n
        elif isinstance(n, ast.For):
            for y in ast.walk(n.target):
                if isinstance(y, ast.Name):
                    yield y.id, n


def declared(stmts):
    return {n.cdecl for n in shallow(stmts) if isinstance(n, ast.Assign) and getattr(n, 'cdecl', None)
            and not getattr(n, 'cstatic', False)}


OPS = {'+': (ast.Add, ast.Sub), '-': (ast.Add, ast.Sub), '*': (ast.Mult,), '&': (ast.BitAnd,), '|': (ast.BitOr,), '^': (ast.BitXor,)}


def scalars(loop, fnode, outer=frozenset()):
    """[(status, name, message, node)] for the variables a parallel loop shares between its iterations.

    outer: names private to the enclosing parallel region."""
    info = loop.omp
    cl = info['clauses']
    priv = set()
    for c in ('private', 'firstprivate', 'lastprivate', 'linear'):
        priv |= names(cl.get(c))
    red = {}
    for x in cl.get('reduction', ()):
        op, _, vs = x.partition(':')
        for y in vs.split(','):
            red[y.strip()] = op.strip()
    own = set(getattr(loop, 'forvars', None) or [])
    w = int(cl['collapse'][0]) if cl.get('collapse') and cl['collapse'][0].isdigit() else 1
    L = loop
    for _ in range(w - 1):
        nxt = [s for s in L.body if isinstance(s, (ast.While, ast.For))]
        if not nxt:
            break
        L = nxt[0]
        own |= set(getattr(L, 'forvars', None) or [])
    body = list(loop.body)
    local = declared(body) | set(outer)
    out = []
    seen = set()
    for n, node in stores(body, False):
        if n in own:
            if n in (getattr(loop, 'forvars', None) or []) and n not in seen:
                # only the loop itself may advance its iteration variable
                out.append(('violation', n, 'counts the iterations and is changed by one of them', node))
                seen.add(n)
            continue
        if n in local or n in seen or re.match(r'_t\d+$', n):
            continue
        b = base(n)
        if b in priv:
            seen.add(n)
            out.append(private_use(n, loop, body, fnode, cl))
            continue
        if b in red:
            continue
        seen.add(n)
        out.append(('violation', n, 'is written by every iteration of a parallel loop but shared between them', node))
    for n, op in red.items():
        bad = None
        for m, node in stores(body):
            if base(m) != n:
                continue
            if op in OPS:
                good = isinstance(node, ast.AugAssign) and isinstance(node.op, OPS[op])
                if isinstance(node, ast.Assign) and isinstance(node.value, ast.BinOp) and isinstance(node.value.op, OPS[op]):
                    xs = [node.value.left] + ([node.value.right] if not isinstance(node.value.op, ast.Sub) else [])
                    good = any(isinstance(x, ast.Name) and x.id == m for x in xs) or nested(node.value, m, OPS[op])
                if not good:
                    bad = node
        loads = [x for x in shallow(body) if isinstance(x, ast.Name) and base(x.id) == n and isinstance(x.ctx, ast.Load)]
        upd = [node for m, node in stores(body) if base(m) == n and isinstance(node, ast.Assign)]
        if bad is not None:
            out.append(('violation', n, 'is combined with %s over the iterations but updated differently' % op, bad))
        elif op in OPS and len(loads) > len(upd):
            out.append(('violation', n, 'is read by iterations of the loop that combines it', loads[0]))
        else:
            out.append(('ok', n, 'reduction', loop))
    return out


def nested(e, name, ops):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ops):
        return nested(e.left, name, ops) or not isinstance(e.op, ast.Sub) and nested(e.right, name, ops)
    return isinstance(e, ast.Name) and e.id == name


def private_use(n, loop, body, fnode, cl):
    first = names(cl.get('firstprivate')) | names(cl.get('linear'))
    if base(n) not in first:
        for x in ordered(body):
            if isinstance(x, ast.Name) and x.id == n:
                if isinstance(x.ctx, ast.Load):
                    return ('violation', n, 'is private to the iterations but read before it is set', x)
                break
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                return ('violation', n, 'is private to the iterations but read before it is set', x)
    if base(n) not in names(cl.get('lastprivate')):
        after = False
        for x in ordered(fnode.body):
            if x is loop:
                after = True
                inside = {id(y) for y in ast.walk(loop)}
                continue
            if after and isinstance(x, ast.Name) and x.id == n and id(x) not in inside:
                if isinstance(x.ctx, ast.Load):
                    return ('violation', n, 'is private to the iterations but its value is used after the loop', x)
                break
    return ('ok', n, 'private', loop)


def ordered(stmts):
    """nodes in the order in which they take effect (right-hand sides before targets)."""
    for s in stmts:
        yield from _ordered(s)


def _ordered(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        return
    if isinstance(n, ast.Assign):
        ch = [n.value] + n.targets
    else:
        ch = list(ast.iter_child_nodes(n)) + list(getattr(n, 'inc', None) or [])
    for c in ch:
        yield from _ordered(c)


def regions(fnode):
    """(loop, names private to an enclosing parallel block) for the parallel loops of a function; other parallel
    constructs as (node, None)."""
    out = []

    def go(stmts, priv):
        for s in stmts:
            o = getattr(s, 'omp', None)
            if isinstance(s, (ast.While, ast.For)):
                if o and o['kind'] in PAR:
                    out.append((s, priv))
                go(s.body, priv)
            elif isinstance(s, ast.With):
                if o and o['kind'] == 'OMPParallelDirective':
                    p = priv | declared(s.body) | names(o['clauses'].get('private')) | names(o['clauses'].get('firstprivate'))
                    rest = [x for x in s.body if not (getattr(x, 'omp', None) or isinstance(x, ast.Assign)
                                                      and getattr(x, 'cdecl', None) or isinstance(x, ast.Pass))]
                    if rest:
                        out.append((s, None))
                    go(s.body, p)
                    continue
                if o and o['kind'] not in GUARDS:
                    out.append((s, None))
                go(s.body, priv)
            elif isinstance(s, ast.If):
                go(s.body, priv)
                go(s.orelse, priv)
            elif isinstance(s, ast.Try):
                go(s.body, priv)
                for h in s.handlers:
                    go(h.body, priv)
                go(s.finalbody, priv)
            elif isinstance(s, ast.FunctionDef):
                go(s.body, priv)
    go(fnode.body, frozenset())
    return out
