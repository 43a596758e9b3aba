"""Program index: parses every Python module of the package and resolves names,
imports, classes and inheritance.  Source is read from the repository tree on
every run; nothing is imported or executed."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'longitudinal_tomography'


class AnalysisError(Exception):
    """The analysis cannot answer (vanished anchor, unparsable source)."""


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.cls = self
            decs = [d for d in s.decorator_list]
            names = []
            for d in decs:
                if isinstance(d, ast.Call):
                    d = d.func
                if isinstance(d, ast.Name):
                    names.append(d.id)
                elif isinstance(d, ast.Attribute):
                    names.append('.' + d.attr)
            s.deco = names
            if '.setter' in names:
                self.setters[s.name] = s
            elif 'property' in names or 'cached_property' in names or '.cached_property' in names \
                    or 'abstractproperty' in names:
                self.getters[s.name] = s
            else:
                # overloads: keep list, last definition wins
                self.methods[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
                    v = s.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                        g = v.args[0].id if v.args and isinstance(v.args[0], ast.Name) else None
                        if g and g in self.methods:
                            self.getters[t.id] = self.methods[g]
                        if len(v.args) > 1 and isinstance(v.args[1], ast.Name) and v.args[1].id in self.methods:
                            self.setters[t.id] = self.methods[v.args[1].id]
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self.attrs[s.target.id] = s.value
        elif isinstance(s, ast.If):
            for x in s.body + s.orelse:
                self._add(x)
        elif isinstance(s, ast.ClassDef):
            pass

    def bases(self, idx):
        out = []
        for b in self.node.bases:
            r = idx.resolve_expr(self.mod, b)
            if r is not None and r[0] == 'class':
                out.append(r[1])
            else:
                out.append(ast.unparse(b))
        return out

    def mro(self, idx):
        out = [self]
        for b in self.bases(idx):
            if isinstance(b, ClassInfo):
                for c in b.mro(idx):
                    if c not in out:
                        out.append(c)
        return out

    def ancestors(self, idx):
        """names of all ancestors, repo and external."""
        out = []
        for b in self.bases(idx):
            if isinstance(b, ClassInfo):
                out.append(b.name)
                out.extend(b.ancestors(idx))
            else:
                out.append(b)
        return out

    def attr_class(self, idx, name):
        """repository class every instance attribute `name` is created from in a constructor, if unique."""
        found = None
        for c in self.mro(idx):
            init = c.methods.get('__init__')
            if init is None:
                continue
            for n in ast.walk(init):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name) \
                            and tg.value.id == 'self':
                        if not isinstance(n.value, ast.Call):
                            return None
                        r = idx.resolve_expr(c.mod, n.value.func)
                        if r is None or r[0] != 'class' or found not in (None, r[1]):
                            return None
                        found = r[1]
        return found

    def find(self, idx, table, name):
        for c in self.mro(idx):
            t = getattr(c, table)
            if name in t:
                return t[name], c
        return None, None


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.names = {}       # name -> ('func', node) | ('class', ClassInfo) | ('import', dotted) | ('assign', expr)
        self.stars = []
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._collect(self.tree.body)

    def exported(self):
        """names a star import takes."""
        a = self.names.get('__all__')
        if a and a[0] == 'assign' and isinstance(a[1], (ast.List, ast.Tuple)):
            return {x.value for x in a[1].elts if isinstance(x, ast.Constant)}
        return {n for n in self.names if not n.startswith('_')}

    def _abs(self, level, module):
        if level == 0:
            return module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if module:
            parts.append(module)
        return '.'.join(parts)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s.mod = self
                s.cls = None
                names = []
                for d in s.decorator_list:
                    if isinstance(d, ast.Call):
                        d = d.func
                    names.append(d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?'))
                s.deco = names
                prev = self.names.get(s.name)
                if 'overload' in names:
                    s.overload = True
                if prev and prev[0] == 'func':
                    s.prev_def = prev[1]
                self.names[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', ClassInfo(self, s, self.name + '.' + s.name))
                for m in ast.walk(s):
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        m.mod = self
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(s.level, s.module)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                        continue
                    self.names[a.asname or a.name] = ('import', (base + '.' if base else '') + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('assign', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ('assign', s.value)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    pass
                self._collect(s.orelse)
            elif isinstance(s, ast.With):
                self._collect(s.body)


class Index:
    def __init__(self, repo=REPO, pkgs=(PKG, 'tomo')):
        self.repo = repo
        self.modules = {}
        for pkg in pkgs:
            root = os.path.join(repo, pkg)
            for dp, dn, fn in os.walk(root):
                dn[:] = [d for d in dn if d != '__pycache__']
                for f in sorted(fn):
                    if not f.endswith('.py') or f == '_version.py':
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        self.modules[rel] = Module(rel, p, open(p, encoding='utf-8').read())
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (p, e))
        if PKG not in self.modules:
            raise AnalysisError('package %s not found' % PKG)

    # -- resolution: returns ('func', node), ('class', ClassInfo), ('mod', Module), ('ext', dotted), ('assign', expr, mod)
    def alias(self):
        """True: importing `tomo` gives the package; False: something else; None: cannot tell."""
        m = self.modules.get('tomo')
        if m is None:
            return False
        r = False
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
                x = s.targets[0]
                if ast.unparse(x.value) == 'sys.modules' and ast.unparse(x.slice) in ('__name__', "'tomo'"):
                    v = ast.unparse(s.value)
                    r = True if v in ("sys.modules['%s']" % PKG, PKG) else None
            elif not isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr)) and r is False:
                r = None
        return r

    def resolve_dotted(self, dotted, _depth=0):
        if dotted.startswith('tomo.') and self.alias():
            dotted = PKG + dotted[4:]
        if _depth > 10:
            return ('ext', dotted)
        if dotted in self.modules:
            return ('mod', self.modules[dotted])
        if '.' in dotted:
            head, tail = dotted.rsplit('.', 1)
            r = self.resolve_dotted(head, _depth + 1)
            if r[0] == 'mod':
                return self.module_attr(r[1], tail, _depth + 1)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + tail)
        return ('ext', dotted)

    def module_attr(self, mod, name, _depth=0):
        ent = mod.names.get(name)
        if ent is None:
            sub = mod.name + '.' + name
            if sub in self.modules:
                return ('mod', self.modules[sub])
            for star in reversed(mod.stars):
                m = self.modules.get(star)
                if m is not None and _depth < 10 and name in m.exported():
                    return self.module_attr(m, name, _depth + 1)
            return ('ext', mod.name + '.' + name)
        if ent[0] == 'import':
            if ent[1] == mod.name + '.' + name:
                return ('ext', ent[1])
            return self.resolve_dotted(ent[1], _depth + 1)
        if ent[0] == 'assign':
            return ('assign', ent[1], mod)
        return ent

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            if e.id in mod.names:
                return self.module_attr(mod, e.id)
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.module_attr(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'class':
                c = b[1]
                m, _ = c.find(self, 'methods', e.attr)
                if m is not None:
                    return ('func', m)
            return None
        return None

    def mod(self, name):
        m = self.modules.get(name) or self.modules.get(PKG + '.' + name)
        if m is None:
            raise AnalysisError('module %s not found' % name)
        return m

    def func(self, mod, name):
        r = self.module_attr(self.mod(mod), name)
        if r[0] != 'func':
            raise AnalysisError('function %s.%s not found' % (mod, name))
        return r[1]

    def cls(self, mod, name):
        r = self.module_attr(self.mod(mod), name)
        if r[0] != 'class':
            raise AnalysisError('class %s.%s not found' % (mod, name))
        return r[1]

    def method(self, mod, cls, name):
        c = self.cls(mod, cls)
        for tab in ('methods', 'getters'):
            m, _ = c.find(self, tab, name)
            if m is not None:
                return m
        raise AnalysisError('method %s.%s.%s not found' % (mod, cls, name))

    def all_functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    n.mod = m
                    yield m, n

    def all_classes(self):
        for m in self.modules.values():
            for n in m.names.values():
                if n[0] == 'class' and n[1].mod is m:
                    yield n[1]


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path
