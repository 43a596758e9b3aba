"""check context: obligations, verdicts, evidence."""
import ast
import os
import re
import signal
import sys
import time
import terms as t
from terms import T, app, sym, const
from pyfront import Index, Module, AnalysisError, REPO, rel
from engine import Engine, V
from summ import summarize, canon_pc, canon
import compare

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

INT_NAMES = {'nprofiles', 'dturns', 'nbins', 'rf_turn', 'machine_ref_frame', 'filmstart', 'filmstop', 'filmstep',
             'nturns', 'nr_particles', 'nparts', 'framelength', 'nframes', 'skip_frames', 'rebin', 'rec_prof',
             'snpt', 'niter', 'fit_profile', 'beam_ref_frame', '_nprofs', '_nbins', '_nparts', 'nprofs', 'turn', 'deltaturn'}


def ident_model(eng, st, node, args, kwargs):
    """cast helpers: same values, fresh array."""
    a = args[-1] if args else list(kwargs.values())[0]
    return V(eng.vterm(a), hint='arr')


def silent(eng, st, node, args, kwargs):
    return V(t.NONE)


BASE_MODELS = {
    'utils.tomo_config.cast': ident_model,
    'utils.tomo_config.cast_to_cpu': ident_model,
    'utils.tomo_config.cast_to_gpu': ident_model,
}


MODEL_SECONDS = 240


class Timeout(Exception):
    pass


class limit:
    """gives up on one obligation group after n seconds."""
    def __init__(self, n):
        self.n = n

    def fire(self, *a):
        raise Timeout('more than %d s' % self.n)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.alarm(self.n)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def carried(c):
    """the condition refers to loop iterations or loop-carried values."""
    return any(str(x.args[0]).startswith(('$L', '$M', 'mu')) for x in t.syms(c))


def written(x):
    """contents of an array after writes through another reference to it (which numpy makes for array arguments)."""
    m = {y: y.args[2] for y in t.subterms(x) if y.op == 'app' and y.args[0] == 'updview'}
    return t.subst(x, m) if m else x


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []
        self._idx = None
        self._cpp = None
        self._cuda = None
        self._spec_names = None
        self.functions = set()
        self.sites = 0
        self.assumptions = []
        self.errors = []
        self.t0 = time.time()

    # ---------------------------------------------------------------- program
    @property
    def idx(self):
        if self._idx is None:
            self._idx = Index()
            for f in sorted(os.listdir(SPEC)) if os.path.isdir(SPEC) else []:
                if f.endswith('.py'):
                    p = os.path.join(SPEC, f)
                    nm = 'spec.' + f[:-3]
                    self._idx.modules[nm] = Module(nm, p, open(p).read())
        return self._idx

    @property
    def spec_names(self):
        """attribute names the references talk about."""
        if self._spec_names is None:
            self._spec_names = {n.attr for m in self.idx.modules.values() if m.name.startswith('spec.')
                                for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
        return self._spec_names

    def mentioned(self, attr):
        """the attribute name occurs in the package."""
        return any(isinstance(n, ast.Attribute) and n.attr == attr
                   for m in self.idx.modules.values() if not m.name.startswith('spec.') for n in ast.walk(m.tree))

    @property
    def cpp(self):
        if self._cpp is None:
            from cfront import Native
            self._cpp = Native.cpp()
        return self._cpp

    @property
    def cuda(self):
        if self._cuda is None:
            from cfront import Native
            self._cuda = Native.cuda()
        return self._cuda

    # ---------------------------------------------------------------- recording
    def ob(self, rule, what, status, msg='', where=''):
        """status: ok | violation | undecided"""
        self.obs.append({'rule': rule, 'instance': what, 'status': status, 'where': where, 'msg': msg})

    def ok(self, rule, what, where=''):
        self.ob(rule, what, 'ok', '', where)

    def bad(self, rule, what, msg, where=''):
        self.ob(rule, what, 'violation', msg, where)

    def undecided(self, rule, what, msg='', where=''):
        self.ob(rule, what, 'undecided', msg, where)

    def part(self, rule, what, fn, *a, **kw):
        """run one analysis step; a construct it cannot interpret leaves that step undecided."""
        compare.Finite.ranges = {}
        compare.Finite.shared = None
        compare.Finite.cache = {}
        compare.dense.TYPED.clear()
        compare.NULLABLE.clear()
        try:
            with limit(MODEL_SECONDS):
                return fn(*a, **kw)
        except (AnalysisError, Timeout, RecursionError, LookupError, TypeError, ValueError, AttributeError,
                ArithmeticError, NotImplementedError) as e:
            self.errors.append('%s: %s: %s' % (what, type(e).__name__, e))
            self.undecided(rule, what, 'analysis gave up: %s %s' % (type(e).__name__, e))

    def same(self, rule, what, a, b, where='', vocab=(), assume=(), domain=None):
        """analysed expression a against required expression b."""
        if a is None or b is None:
            if a is b:
                self.ok(rule, what, where)
            else:
                self.undecided(rule, what, 'no value extracted', where)
            return
        v = compare.verdict(a, b, vocab, assume, domain)
        msg = 'computes %s where %s is required' % (t.show(a)[:600], t.show(b)[:600])
        self.ob(rule, what, {'equal': 'ok', 'different': 'violation', 'undecided': 'undecided'}[v],
                '' if v == 'equal' else msg, where)
        return v

    def same_raise(self, rule, what, s1, s2, name, where, vocab=(), assume=(), domain=None):
        a, b = s1.raise_cond(name), s2.raise_cond(name)
        if a is not b and (carried(a) or carried(b)):
            a, b = s1.closed_cond(name), s2.closed_cond(name)
            v = 'equal' if a is b else {True: 'equal', False: 'different', None: 'undecided'}[
                compare.finite_agree(a, b, assume, 2)]
            if v == 'different' and compare.opnames(a) - (compare.RESOLVED | compare.LOOPS | set(vocab) | compare.opnames(b)):
                v = 'undecided'
            if v == 'different' or v == 'undecided':
                if compare.verdict(s1.raise_cond(name), s2.raise_cond(name), vocab, assume, domain) == 'equal':
                    v = 'equal'
            self.ob(rule, what, {'equal': 'ok', 'different': 'violation', 'undecided': 'undecided'}[v],
                    '' if v == 'equal' else 'raises if %s where %s is required' % (t.show(a)[:600], t.show(b)[:600]), where)
            return v
        return self.same(rule, what, a, b, where, vocab, assume, domain)

    def holds(self, rule, what, cond, msg='', where=''):
        self.ob(rule, what, 'ok' if cond else 'violation', '' if cond else msg, where)
        return cond

    # ---------------------------------------------------------------- python functions
    def find(self, path):
        """'module.func', 'module.Class.method', 'module.Class.prop' or 'module.Class.prop='"""
        idx = self.idx
        mod, name = path.rsplit('.', 1)
        try:
            if not name.endswith('='):
                return idx.func(mod, name)
        except AnalysisError:
            pass
        mod, cls = mod.rsplit('.', 1)
        c = idx.cls(mod, cls)
        if name.endswith('='):
            m, _ = c.find(idx, 'setters', name[:-1])
            if m is None:
                raise AnalysisError('setter %s not found' % path)
            return m
        return idx.method(mod, cls, name)

    def engine(self, models=None, opaque=(), **kw):
        m = dict(BASE_MODELS)
        m.update(models or {})
        e = Engine(self.idx, models=m, opaque=opaque, **kw)
        e.int_names = set(INT_NAMES)
        return e

    def summary(self, fnode, args=None, models=None, opaque=(), self_v=None, cls=None, **kw):
        e = self.engine(models, opaque, **kw)
        s = summarize(self.idx, fnode, args, self_v=self_v, cls=cls, eng=e)
        self.functions |= e.visited
        self.sites += len(e.trace)
        return s

    def spec_args(self, eng, repo_fn, spec_fn, bound):
        """parameters named and typed by the specification, bound to the repository function by position."""
        rn = [a for a in repo_fn.args.posonlyargs + repo_fn.args.args]
        sn = [a for a in spec_fn.args.posonlyargs + spec_fn.args.args]
        if bound:
            rn, sn = rn[1:], sn[1:]
        out = {}
        byname = {a.arg: a for a in sn}
        for i, r in enumerate(rn):
            s = byname.get(r.arg) or (sn[i] if i < len(sn) and sn[i].arg not in [x.arg for x in rn] else None)
            if s is None:
                continue
            out[r.arg] = self.spec_param(eng, s, spec_fn)
        rk = {a.arg for a in repo_fn.args.kwonlyargs}
        for s in list(spec_fn.args.kwonlyargs) + sn:
            if s.arg in rk:
                out[s.arg] = self.spec_param(eng, s, spec_fn)
        return out

    def spec_param(self, eng, a, spec_fn):
        ann = a.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value.startswith('='):
            # fixed value
            return V(const(ast.literal_eval(ann.value[1:])))
        v = eng.param(a.arg, ann, spec_fn.mod)
        if v.kind == 'term' and v.hint:
            eng.typed[v.term] = v.hint
            compare.dense.TYPED[v.term] = v.hint
        return v

    def pair(self, path, spec, models=None, opaque=(), args=None, setup=None):
        fn = self.find(path) if isinstance(path, str) else path
        sp = self.idx.func('spec.' + spec.rsplit('.', 1)[0], spec.rsplit('.', 1)[1])
        cls = getattr(fn, 'cls', None)
        deco = getattr(fn, 'deco', [])
        bound = cls is not None and 'staticmethod' not in deco
        e1 = self.engine(models, opaque)
        e2 = self.engine(models, opaque)
        if not bound and any('dispatch' in getattr(c, 'deco', []) for c in (fn, getattr(fn, 'prev_def', None)) if c):
            # the overload the reference's parameters select
            pos = sp.args.posonlyargs + sp.args.args
            n = len(pos) - len(sp.args.defaults)
            fn = e1.pick_overload(fn, n, {}, [self.spec_param(e2, a, sp) for a in pos[:n]])
        a1 = self.spec_args(e1, fn, sp, bound)
        self1 = None
        a2 = {}
        for a in sp.args.args + sp.args.kwonlyargs:
            a2[a.arg] = self.spec_param(e2, a, sp)
        if args:
            for k, mk in args.items():
                a1[k] = mk(e1)
                a2[k] = mk(e2)
        if bound and 'classmethod' not in deco:
            sname = sp.args.args[0]
            _, c = e1.ann_info(sname.annotation, sp.mod)
            self1 = e1.new_obj(c or cls, 'self')
            a2[sname.arg] = e2.new_obj(c or cls, 'self')
            if setup:
                setup(e1, self1)
                setup(e2, a2[sname.arg])
        s1 = summarize(self.idx, fn, a1, self_v=self1, eng=e1, cls=(self1.cls if self1 is not None and
                                                                   self1.cls is not None else None))
        s2 = summarize(self.idx, sp, a2, eng=e2)
        # the specification's explicit self parameter
        self.functions |= e1.visited
        self.sites += len(e1.trace)
        return fn, sp, s1, s2

    def model(self, path, spec, known=None, via=(), **kw):
        """reference-model comparison; `known` names the reference of a recorded defect: what deviates from
        `spec` exactly as `known` does is reported under the instance '... (recorded deviation)'."""
        n = len(self.obs)
        try:
            with limit(MODEL_SECONDS):
                r = self._model(path, spec, **kw)
        except (AnalysisError, Timeout, RecursionError, LookupError, TypeError, ValueError, AttributeError,
                ArithmeticError, NotImplementedError) as e:
            self.errors.append('%s: %s: %s' % (path, type(e).__name__, e))
            self.undecided(kw.get('rule') or 'reference-model', str(path), 'analysis gave up: %s %s'
                           % (type(e).__name__, e))
            return None
        if known and any(o['status'] == 'violation' for o in self.obs[n:]):
            first = self.obs[n:]
            del self.obs[n:]
            self._model(path, known, **kw)
            second = {o['instance']: o['status'] for o in self.obs[n:]}
            del self.obs[n:]
            for o in first:
                if o['status'] == 'violation' and second.get(o['instance']) == 'ok':
                    o['instance'] += ' (recorded deviation)'
            self.obs += first
        if via and any(o['status'] == 'violation' for o in self.obs[n:]):
            # an internal helper deviates: what counts is what the public functions using it compute
            mine = self.obs[n:]
            del self.obs[n:]
            for v in via:
                self.model(v[0], v[1], **(v[2] if len(v) > 2 else {}))
            pub = self.obs[n:]
            del self.obs[n:]
            if pub and all(o['status'] == 'ok' for o in pub):
                for o in mine:
                    if o['status'] == 'violation':
                        o['status'] = 'undecided'
                        o['msg'] = 'helper differs from its reference, its public users do not: ' + o['msg']
            self.obs += mine
        return r

    def _model(self, path, spec, aspects=('ret', 'raises', 'attrs', 'params', 'defaults'), models=None, opaque=(), args=None,
              vocab=(), domain=None, setup=None, calls=(), only_attrs=None, rule=None, assume=(), normal=True, label=None):
        """the function at `path` computes what the reference function `spec` computes."""
        fn, sp, s1, s2 = self.pair(path, spec, models, opaque, args, setup)
        name = label or (path if isinstance(path, str) else fn.name)
        if fn.name.startswith('_') and not fn.name.startswith('__'):
            # an internal helper is only comparable while it keeps its interface
            n1 = len(fn.args.posonlyargs + fn.args.args)
            n2 = len(sp.args.posonlyargs + sp.args.args)
            if getattr(fn, 'cls', None) is not None and 'staticmethod' in getattr(fn, 'deco', []):
                n2 += 0
            if n1 != n2:
                self.undecided(rule or 'reference-model', name, 'internal helper with another interface')
                return s1, s2
        where = '%s:%d' % (rel(fn.mod.path), fn.lineno)
        rule = rule or 'reference-model'
        if s1.dead != s2.dead:
            if s1.dead:
                self.bad(rule, name + ' returns', 'every path raises', where)
            else:
                self.bad(rule, name + ' rejects', 'must always raise but can return', where)
            return s1, s2
        pos = sp.args.posonlyargs + sp.args.args
        for p, d in list(zip(pos[len(pos) - len(sp.args.defaults):], sp.args.defaults)) + \
                list(zip(sp.args.kwonlyargs, sp.args.kw_defaults)):
            if isinstance(d, ast.Constant) and d.value is None:
                compare.NULLABLE.update((sym(p.arg), sym(p.arg, True)))
        if 'defaults' in aspects:
            self.defaults(rule, name, fn, sp, where)
        # values are compared where the specification returns normally
        rc = s2.raise_cond()
        if rc is not t.FALSE and normal:
            assume_v = tuple(assume) + (t.not_(rc),)
        else:
            assume_v = tuple(assume)
        raise_assume, assume = assume, assume_v
        if 'ret' in aspects and not s1.dead:
            self.parts(rule, name + ' result', s1.ret, s2.ret, where, vocab, domain, assume)
        if 'attrs' in aspects and not s1.dead:
            for k in sorted(s2.attrs):
                if only_attrs is not None and k not in only_attrs:
                    continue
                b = s2.attrs[k]
                init = sym(k, k.split('.')[-1] in INT_NAMES)
                a = s1.attrs.get(k)
                if a is None:
                    if b is init or b.op == 'sym':
                        continue
                    last = k.split('.')[-1]
                    if last.startswith('_') and not self.mentioned(last):
                        self.undecided(rule, name + ' sets ' + k, 'no such internal attribute any more', where)
                        continue
                    self.bad(rule, name + ' sets ' + k, 'is never set', where)
                    continue
                if a is init and b is init:
                    continue
                self.parts(rule, name + ' sets ' + k, a, b, where, vocab, domain, assume)
            for k in sorted(set(s1.attrs) - set(s2.attrs)):
                # attributes the reference leaves alone
                last = k.split('.')[-1]
                if only_attrs is not None or '[' in k or last not in self.spec_names:
                    continue
                init = sym(k, last in INT_NAMES)
                a = s1.attrs[k]
                if a is init or a.op == 'sym' and a.args[0] == k:
                    continue
                self.parts(rule, name + ' keeps ' + k, written(a), init, where, vocab, domain, assume)
        if 'params' in aspects and not s1.dead:
            for k, b in s2.params.items():
                a = s1.params.get(k)
                if a is None or (k not in s1.params):
                    continue
                if b.op == 'sym' and str(b.args[0]).startswith('obj:'):
                    continue
                if a is b and b.op in ('sym', 'const'):
                    continue
                self.parts(rule, name + ' leaves ' + k, written(a), written(b), where, vocab, domain, assume)
        if 'output' in aspects and not s1.dead:
            self.same(rule, name + ' writes', s1.out, s2.out, where, vocab, assume, domain)
        if 'raises' in aspects:
            for n in sorted(set(s1.raises) | set(s2.raises)):
                self.same_raise(rule, '%s raises %s' % (name, n), s1, s2, n,
                                s1.raises[n][0][1].where() if n in s1.raises else where, vocab, raise_assume, domain)
        for c in calls:
            self.calls(rule, name, c, s1, s2, where, vocab, domain)
        return s1, s2

    def defaults(self, rule, name, fn, sp, where):
        """default values of parameters the specification gives a default."""
        def table(f):
            pos = f.args.posonlyargs + f.args.args
            d = dict(zip([a.arg for a in pos[len(pos) - len(f.args.defaults):]], f.args.defaults))
            d.update({a.arg: v for a, v in zip(f.args.kwonlyargs, f.args.kw_defaults) if v is not None})
            return d, {a.arg for a in pos + f.args.kwonlyargs}
        a, an = table(fn)
        b, _ = table(sp)
        for k, v in b.items():
            if k not in an:
                continue
            what = '%s default of %s' % (name, k)
            if k not in a:
                self.bad(rule, what, 'the parameter has no default any more', where)
                continue
            try:
                x, y = ast.literal_eval(a[k]), ast.literal_eval(v)
            except ValueError:
                if ast.unparse(a[k]) == ast.unparse(v):
                    self.ok(rule, what, where)
                else:
                    self.undecided(rule, what, 'default %s' % ast.unparse(a[k]), where)
                continue
            self.holds(rule, what, x == y and (x is None) == (y is None), 'is %r where %r is required' % (x, y), where)

    # ---------------------------------------------------------------- native functions
    def cengine(self, native=None, real='double', models=None, opaque=(), **kw):
        from ceng import CEngine
        e = CEngine(self.idx, native or self.cpp, real, models=dict(models or {}), opaque=opaque, **kw)
        e.int_names = set(INT_NAMES)
        return e

    def exported(self):
        """(binding, function) for every overload the extension module exports."""
        out = []
        for b in self.cpp.bindings():
            for f in self.cpp.by_name.get(b['fn'], []):
                if len(f.args.args) == len(b['args']) and not (f.targs and b['real'] not in f.targs.values()):
                    out.append((b, f))
                    break
        return out

    def csummary(self, name, nargs=None, real='double', native=None, args=None, models=None, opaque=(), eng=None):
        nat = native or self.cpp
        fn = nat.need(name, nargs, real) if isinstance(name, str) else name
        e = eng or self.cengine(nat, real, models, opaque)
        a = {p.arg: e.cparam(p.arg, getattr(p, 'ctype', '')) for p in fn.args.args}
        for k, mk in (args or {}).items():
            a[k] = mk(e)
        s = summarize(self.idx, fn, a, eng=e)
        s.fn = fn
        self.functions |= e.visited
        self.sites += len(e.trace) + len(e.reads)
        return s

    def native_model(self, name, spec, nargs=None, real='double', native=None, models=None, opaque=(), args=None,
                     rule='reference-model', vocab=(), domain=None, assume=(), aspects=('ret', 'params', 'raises'),
                     only=None, ranges=None):
        """the native function leaves its buffers as the reference function does."""
        tag = '%s<%s>' % (name, real)
        return self.part(rule, tag, self._native_model, name, spec, nargs, real, native, models, opaque, args, rule,
                         vocab, domain, assume, aspects, only, ranges)

    def _native_model(self, name, spec, nargs, real, native, models, opaque, args, rule, vocab, domain, assume,
                      aspects, only, ranges=None):
        tag = '%s<%s>' % (name, real)
        s1 = self.csummary(name, nargs, real, native, args, models, opaque)
        sp = self.idx.func('spec.' + spec.rsplit('.', 1)[0], spec.rsplit('.', 1)[1])
        e2 = self.cengine(native, real, models, opaque)
        a2 = {}
        # the reference names its parameters; native parameters are matched by position
        cn = [p.arg for p in s1.fn.args.args]
        sn = [p.arg for p in sp.args.args]
        if len(cn) != len(sn):
            self.undecided(rule, tag, 'takes %d parameters, the reference takes %d' % (len(cn), len(sn)))
            return
        for c, p in zip(s1.fn.args.args, sp.args.args):
            a2[p.arg] = (args or {})[c.arg](e2) if c.arg in (args or {}) else e2.cparam(c.arg, getattr(c, 'ctype', ''))
        self.ranges(a2, ranges)
        s2 = summarize(self.idx, sp, a2, eng=e2)
        where = '%s:%d' % (rel(s1.fn.cfile) if getattr(s1.fn, 'cfile', None) else name, s1.fn.lineno)
        rc = s2.raise_cond()
        if carried(rc):
            av = tuple(assume) + (t.app('never', s2.closed_cond()),)
        else:
            av = tuple(assume) + ((t.not_(rc),) if rc is not t.FALSE else ())
        xs = [x for s in (s1, s2) for x in [s.ret, s.closed_cond()] + list(s.params.values()) if x is not None]
        compare.Finite.shared = (frozenset().union(*[compare.extents(x) for x in xs]),
                                 frozenset().union(*[compare.int_arrays(x) for x in xs]))
        if s1.dead or s2.dead:
            self.holds(rule, tag + ' returns', s1.dead == s2.dead, 'every path throws', where)
            return
        if 'ret' in aspects:
            self.parts(rule, tag + ' result', s1.ret, s2.ret, where, vocab, domain, av)
        if 'params' in aspects:
            for c, p in zip(cn, sn):
                if only is not None and p not in only:
                    continue
                a, b = s1.params.get(c), s2.params.get(p)
                if a is b and b.op in ('sym', 'const'):
                    continue
                self.parts(rule, tag + ' leaves ' + p, a, b, where, vocab, domain, av)
        if 'raises' in aspects:
            self.same_raise(rule, tag + ' throws', s1, s2, None, where, vocab, assume, domain)
        return s1, s2

    @staticmethod
    def ranges(args, ranges):
        """entries of integer arrays: 'n' for [0, n) or (lo, hi), each a number, a parameter or (parameter, offset)."""
        def end(x):
            if isinstance(x, tuple):
                return t.add(end(x[0]), t.num(x[1]))
            return args[x].term if isinstance(x, str) else t.num(x)
        compare.Finite.ranges = {args[k].term: (end(n[0]), end(n[1])) if isinstance(n, tuple) else (t.ZERO, end(n))
                                 for k, n in (ranges or {}).items()}

    # ---------------------------------------------------------------- extension module
    def binding(self, name, spec, real='double', pick='', rule='reference-model', aspects=('ret', 'params', 'raises',
                'log', 'names'), only=None, ranges=None, vocab=(), domain=None, assume=(), native=None, opaque=()):
        """the function the extension module exports under `name` does what the reference function does."""
        tag = 'libtomo.%s<%s>%s' % (name, real, pick and ' (%s)' % pick)
        return self.part(rule, tag, self._binding, tag, name, spec, real, pick, rule, aspects, only, ranges, vocab,
                         domain, assume, native, opaque)

    def _binding(self, tag, name, spec, real, pick, rule, aspects, only, ranges, vocab, domain, assume, native, opaque):
        nat = native or self.cpp
        sp = self.idx.func('spec.' + spec.rsplit('.', 1)[0], spec.rsplit('.', 1)[1])
        sn = [p.arg for p in sp.args.args]
        bs = nat.bindings()
        mine = [b for b in bs if b['name'] == name]
        if bs and not mine:
            self.bad(rule, tag + ' exported', 'the extension module no longer exports %s' % name, bs[0]['cfile'])
            return
        cand = []
        for b in mine:
            fns = [f for f in nat.by_name.get(b['fn'], []) if len(f.args.args) == len(b['args'])]
            for f in fns:
                if f.targs and b['real'] not in f.targs.values():
                    continue
                if len(f.args.args) != len(sn):
                    continue
                if (real if real in ('double', 'float') else 'double') != b['real']:
                    continue
                if pick in ('scalar', 'array'):
                    ct = getattr(f.args.args[sn.index('phi12')], 'ctype', '')
                    if ('array' in ct) != (pick == 'array'):
                        continue
                cand.append((b, f))
        if not cand:
            if len(mine) and all(b['fn'] in nat.by_name for b in mine):
                self.bad(rule, tag + ' exported', 'no overload of %s for %s arrays takes %d arguments' %
                         (name, real, len(sn)), '%s:%d' % (rel(mine[0]['cfile']), mine[0]['line']))
            else:
                self.undecided(rule, tag, 'bound function not found')
            return
        b, fn = cand[0]
        w = '%s:%d' % (rel(b['cfile']), b['line'])
        if 'names' in aspects:
            self.holds(rule, tag + ' argument names', b['args'] == sn, 'keywords are %s where %s are required' %
                       (b['args'], sn), w)
            sd = dict(zip(sn[len(sn) - len(sp.args.defaults):], sp.args.defaults))
            for k, v in sd.items():
                got = b['defaults'].get(k)
                g = '(no default)' if got is None else ast.unparse(got)
                if got is not None and 'none' in g:
                    g = 'None'
                self.holds(rule, '%s default of %s' % (tag, k), g == ast.unparse(v),
                           'is %s where %s is required' % (g, ast.unparse(v)), w)
        if set(aspects) <= {'names'}:
            self.functions.add('libtomo.' + name)
            return
        s1 = self.csummary(fn, None, b['real'], nat, None, None, opaque)
        e2 = self.cengine(nat, b['real'], None, opaque)
        a2 = {p.arg: e2.cparam(c.arg, getattr(c, 'ctype', '')) for c, p in zip(fn.args.args, sp.args.args)}
        self.ranges(a2, ranges)
        s2 = summarize(self.idx, sp, a2, eng=e2)
        where = '%s:%d' % (rel(fn.cfile), fn.lineno)
        rc = s2.raise_cond()
        if carried(rc):
            av = tuple(assume) + (t.app('never', s2.closed_cond()),)
        else:
            av = tuple(assume) + ((t.not_(rc),) if rc is not t.FALSE else ())
        xs = [x for s in (s1, s2) for x in [s.ret, s.closed_cond(), getattr(s, 'log', None)] + list(s.params.values())
              if x is not None]
        compare.Finite.shared = (frozenset().union(*[compare.extents(x) for x in xs]),
                                 frozenset().union(*[compare.int_arrays(x) for x in xs]))
        if s1.dead or s2.dead:
            self.holds(rule, tag + ' returns', s1.dead == s2.dead, 'every path throws', where)
            return
        if 'ret' in aspects:
            r1, r2 = s1.ret, s2.ret
            keep = None
            if only is not None and r2.op == 'app' and r2.args[0] == 'tuple' and r1.op == 'app' \
                    and r1.args[0] == 'tuple' and len(r1.args) == len(r2.args):
                keep = [i for i in only if isinstance(i, int)]
                r1, r2 = [app('tuple', *[r.args[i + 1] for i in keep]) for r in (r1, r2)]
            self.parts(rule, tag + ' result', r1, r2, where, vocab, domain, av)
        if 'params' in aspects:
            for c, p in zip(fn.args.args, sn):
                if only is not None and p not in only:
                    continue
                x, y = s1.params.get(c.arg), s2.params.get(p)
                if x is y and y.op in ('sym', 'const'):
                    continue
                if x is s1.ret and y is s2.ret and 'ret' in aspects:
                    continue
                self.parts(rule, tag + ' leaves ' + p, x, y, where, vocab, domain, av)
        if 'output' in aspects:
            self.same(rule, tag + ' prints', s1.out, s2.out, where, vocab, av, domain)
        if 'log' in aspects:
            self.parts(rule, tag + ' progress reports', s1.log, s2.log, where, vocab, domain, av)
        if 'raises' in aspects:
            self.same_raise(rule, tag + ' throws', s1, s2, None, where, vocab, assume, domain)
        return s1, s2

    def parts(self, rule, what, a, b, where, vocab=(), domain=None, assume=()):
        """compare component-wise where both are tuples/objects."""
        if a is not None and b is not None:
            n = [len(x.args) - 1 for x in (a, b) if x.op == 'app' and x.args[0] == 'tuple']
            if len(n) == 1:
                def proj(x, i):
                    if x.op == 'app' and x.args[0] == 'tuple' and len(x.args) == n[0] + 1:
                        return x.args[i + 1]
                    if x.op == 'ite':
                        return t.ite(x.args[0], proj(x.args[1], i), proj(x.args[2], i))
                    return app('sel', x, t.num(i))
                if a.op == 'ite' or b.op == 'ite':
                    a, b = [app('tuple', *[proj(x, i) for i in range(n[0])]) for x in (a, b)]
        if a is not None and b is not None and a.op == b.op == 'app' and a.args[0] == b.args[0] == 'reshape' \
                and len(a.args) == len(b.args) == 3:
            self.same(rule, what + ' shape', a.args[2], b.args[2], where, vocab, assume, domain)
            a, b = a.args[1], b.args[1]
        for f in ('tuple', 'list'):
            if a is not None and b is not None and a.op == b.op == 'app' and a.args[0] == b.args[0] == f \
                    and len(a.args) == len(b.args):
                for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
                    self.parts(rule, '%s[%d]' % (what, i), x, y, where, vocab, domain, assume)
                return
        if a is not None and b is not None and a.op == b.op == 'app' and a.args[0] == b.args[0] \
                and str(a.args[0]).startswith('object:'):
            fa = {x.args[0]: x.args[1] for x in a.args[1:]}
            fb = {x.args[0]: x.args[1] for x in b.args[1:]}
            for k in sorted(fb):
                if k in fa:
                    self.parts(rule, what + '.' + k[6:], fa[k], fb[k], where, vocab, domain, assume)
                else:
                    self.bad(rule, what + '.' + k[6:], 'is not set', where)
            return
        self.same(rule, what, a, b, where, vocab, assume, domain)

    def calls(self, rule, name, cname, s1, s2, where, vocab, domain):
        def sel(s):
            out = []
            for e in s.calls:
                if e.name == cname or e.name.endswith('.' + cname):
                    out.append(e)
            return out
        c1, c2 = sel(s1), sel(s2)
        if len(c1) != len(c2):
            if not c1:
                self.bad(rule, '%s calls %s' % (name, cname), 'the call is gone', where)
            else:
                self.undecided(rule, '%s calls %s' % (name, cname), '%d call sites against %d' % (len(c1), len(c2)),
                               where)
            return
        for i, (x, y) in enumerate(zip(c1, c2)):
            w = x.where()
            self.same(rule, '%s calls %s when' % (name, cname), canon_pc(x), canon_pc(y), w, vocab, (), domain)
            ta = app('tuple', *[canon(x, z) for z in x.terms])
            tb = app('tuple', *[canon(y, z) for z in y.terms])
            if len(ta.args) != len(tb.args):
                self.undecided(rule, '%s calls %s with' % (name, cname), 'different argument passing', w)
            else:
                self.parts(rule, '%s calls %s with' % (name, cname), ta, tb, w, vocab, domain)
            for k in y.kwterms:
                if k in x.kwterms:
                    self.same(rule, '%s calls %s with %s' % (name, cname, k), canon(x, x.kwterms[k]),
                              canon(y, y.kwterms[k]), w, vocab, (), domain)
