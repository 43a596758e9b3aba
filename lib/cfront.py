"""Front end for the native sources (C++ and CUDA kernels).

clang parses the translation unit with the real headers; the resolved syntax
tree of everything the repository itself defines is lowered to Python `ast`
nodes carrying C++ attributes, so that engine.py analyses native and Python code
with one value-flow analysis.  Nothing is compiled to object code or run.
"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import tempfile
from pyfront import AnalysisError, REPO, PKG

CPP = os.path.join(PKG, 'cpp_routines')
CUDA = os.path.join(PKG, 'cuda_kernels')
NS = 'ltverif'

STUB_OMP = '''#pragma once
extern "C" { int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void);
void omp_set_num_threads(int); double omp_get_wtime(void); int omp_get_num_procs(void); int omp_in_parallel(void); }
'''
STUB_CUDA = '''#pragma once
struct ltdim3 { int x, y, z; };
static ltdim3 threadIdx, blockIdx, blockDim, gridDim;
#define __global__ __attribute__((annotate("global")))
#define __device__ __attribute__((annotate("device")))
#define __host__
#define __shared__ __attribute__((annotate("shared")))
#define __constant__
#define __forceinline__ inline
#define __launch_bounds__(...)
#define extern_shared
template<class A, class B> A atomicAdd(A*, B);
template<class A, class B> A atomicMax(A*, B);
template<class A, class B> A atomicMin(A*, B);
template<class A, class B> A atomicSub(A*, B);
template<class A, class B, class C> A atomicCAS(A*, B, C);
template<class A, class B> A atomicExch(A*, B);
void __syncthreads();
void __syncwarp();
double rsqrt(double);
double __longlong_as_double(long long); long long __double_as_longlong(double);
'''


def python_includes():
    out = []
    for py in ('/opt/venv/bin/python', 'python3'):
        try:
            r = subprocess.run([py, '-c', 'import sysconfig,pybind11;print(pybind11.get_include());'
                                          'print(sysconfig.get_path("include"))'],
                               capture_output=True, text=True)
        except OSError:
            continue
        if r.returncode == 0:
            return r.stdout.split()
    raise AnalysisError('pybind11 headers not found')


def dump(path, cuda=False, defines=(), extra_includes=()):
    """clang AST (JSON) of the repository declarations of one source file."""
    if not os.path.exists(path):
        raise AnalysisError('source file %s not found' % path)
    d = os.path.dirname(path)
    tmp = tempfile.mkdtemp(prefix='ltverif')
    try:
        pre = []
        files = [f for f in os.listdir(d) if f.endswith(('.cpp', '.h', '.cc', '.hpp', '.cuh'))]
        if not cuda:
            for f in sorted(files):
                for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*([<"][^>"\n]+[>"])',
                                     open(os.path.join(d, f), encoding='utf-8').read(), re.M):
                    inc = m.group(1)
                    if inc[0] == '"' and os.path.exists(os.path.join(d, inc[1:-1])):
                        continue
                    if inc not in pre:
                        pre.append(inc)
        os.mkdir(tmp + '/stub')
        open(tmp + '/stub/omp.h', 'w').write(STUB_OMP)
        open(tmp + '/stub/ltcuda.h', 'w').write(STUB_CUDA)
        tu = tmp + '/tu.cpp'
        with open(tu, 'w') as f:
            for p in ['<cmath>', '<cstring>', '<algorithm>', '<functional>', '<vector>', '<memory>'] if not cuda \
                    else ['<cmath>', '<algorithm>']:
                f.write('#include %s\n' % p)
            for p in pre:
                f.write('#include %s\n' % p)
            if cuda:
                f.write('#include "ltcuda.h"\n')
            f.write('namespace %s {\n#include "%s"\n}\n' % (NS, path))
        inc = [] if cuda else python_includes()
        cmd = ['clang++', '-std=c++17', '-fopenmp', '-w', '-I' + tmp + '/stub'] + ['-I' + x for x in inc] + \
            ['-D' + x for x in defines] + \
            ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS, tu]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0:
            raise AnalysisError('clang cannot parse %s: %s' % (path, r.stderr.decode()[-1500:]))
        s = r.stdout.decode()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    dec = json.JSONDecoder()
    i = 0
    docs = []
    while True:
        while i < len(s) and s[i] in ' \n\r\t':
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        if o.get('name') == NS:
            docs.append(o)
    return docs


class CFunc:
    def __init__(self, node, targs, fnode):
        self.json = node
        self.targs = targs
        self.node = fnode


class CModule:
    """pyfront.Module look-alike for native code."""

    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.names = {}
        self.is_pkg = False


SKIP = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ConstantExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'FullExpr',
        'SubstNonTypeTemplateParmExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDefaultInitExpr'}

INT_T = {'int', 'long', 'unsigned int', 'unsigned long', 'long long', 'size_t', 'short', 'bool', 'ssize_t',
         'unsigned long long', 'char', 'std::size_t', 'int32_t', 'int64_t', 'uint32_t', 'uint64_t',
         'unsigned char', 'signed char'}


def clean_type(q):
    q = q.replace('const ', '').replace(' const', '').replace('restrict', '').replace('__', '').strip()
    q = q.replace('&', '').strip()
    return q


def is_int_type(q):
    return clean_type(q) in INT_T


def is_float_type(q):
    return clean_type(q) in ('double', 'float', 'real_t', 'long double')


class Lower:
    """lowers one function body."""

    def __init__(self, unit, targs):
        self.u = unit
        self.loopcond = False
        self.targs = targs
        self.names = {}
        self.used = {}
        self.types = {}
        self.tmp = 0
        self.lambdas = {}
        self.moving = set()

    # ---- names
    def declare(self, n):
        nm = n.get('name') or '_anon'
        if n['id'] in self.names:
            return self.names[n['id']]
        k = self.used.get(nm, 0)
        self.used[nm] = k + 1
        out = nm if k == 0 else '%s__%d' % (nm, k + 1)
        self.names[n['id']] = out
        self.types[out] = n.get('type', {}).get('qualType', '')
        d = n.get('type', {}).get('desugaredQualType')
        if d:
            self.types[out] = d
        for a, b in self.u.typedefs.items():
            if a and a in self.types[out]:
                self.types[out] = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(a), lambda m: b, self.types[out])
        return out

    def ty(self, n):
        t_ = n.get('type', {})
        return t_.get('desugaredQualType') or t_.get('qualType', '')

    def loc(self, n, a):
        line, f = self.u.line(n)
        a.lineno = line
        a.col_offset = 0
        a.end_lineno = line
        a.end_col_offset = 0
        a.cfile = self.u.path
        return a

    def newtmp(self):
        self.tmp += 1
        return '_t%d' % self.tmp

    # ---- pointers that move: p++ and p += k count in an integer of their own
    def find_moving(self, n):
        k = n.get('kind')
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if (k == 'UnaryOperator' and n.get('opcode') in ('++', '--') or
                k == 'CompoundAssignOperator' and n.get('opcode') in ('+=', '-=')) and '*' in self.ty(n):
            x = inner[0]
            while x.get('kind') in SKIP and x.get('inner'):
                x = x['inner'][-1]
            if x.get('kind') == 'DeclRefExpr':
                rd = x.get('referencedDecl', {})
                if rd.get('kind') in ('VarDecl', 'ParmVarDecl') and '&' not in rd.get('type', {}).get('qualType', ''):
                    self.moving.add(rd.get('id'))
        for c in inner:
            self.find_moving(c)

    def moved(self, n):
        """the name of the pointer variable n denotes, when it is one that moves."""
        while n.get('kind') in SKIP and n.get('inner'):
            n = n['inner'][-1]
        if n.get('kind') == 'DeclRefExpr':
            i = n.get('referencedDecl', {}).get('id')
            if i in self.moving and i in self.names:
                return self.names[i]
        return None

    def start(self, n, nm):
        tgt = ast.Name(nm + '__off', ast.Store())
        tgt.cdecl = True
        s = self.loc(n, ast.Assign([tgt], ast.Constant(0)))
        s.cdecl = nm + '__off'
        s.ctype = 'long'
        s.cstatic = False
        self.types[nm + '__off'] = 'long'
        return s

    def move0(self, n, nm):
        return self.loc(n, ast.Assign([ast.Name(nm + '__off', ast.Store())], ast.Constant(0)))

    def move(self, n, nm, by, sign=1):
        return self.loc(n, ast.AugAssign(ast.Name(nm + '__off', ast.Store()), ast.Add() if sign > 0 else ast.Sub(), by))

    # ---- expressions -> ast expr, appending side effects to pre
    def name(self, s):
        return ast.Name(s, ast.Load())

    def call(self, f, *args):
        return ast.Call(ast.Name(f, ast.Load()), list(args), [])

    def ex(self, n, pre):
        k = n.get('kind')
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k in SKIP:
            src = inner[-1] if inner else None
            if src is None:
                return ast.Constant(None)
            r = self.ex(src, pre)
            ck = n.get('castKind', '')
            if ck == 'FloatingToIntegral':
                return self.loc(n, self.call('int', r))
            return r
        if k == 'CXXDefaultArgExpr':
            return ast.Constant(None)
        if k == 'IntegerLiteral':
            return self.loc(n, ast.Constant(int(n['value'])))
        if k == 'FloatingLiteral':
            return self.loc(n, ast.Constant(float(n['value'])))
        if k == 'CXXBoolLiteralExpr':
            return self.loc(n, ast.Constant(bool(n['value'])))
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr':
            return ast.Constant(None)
        if k == 'StringLiteral':
            v = n.get('value', '""')
            try:
                v = json.loads(v)
            except ValueError:
                v = v.strip('"')
            return self.loc(n, ast.Constant(v))
        if k == 'CharacterLiteral':
            return ast.Constant(chr(n.get('value', 0)))
        if k == 'DeclRefExpr':
            return self.declref(n)
        if k == 'MemberExpr':
            b = self.ex(inner[0], pre) if inner else self.name('this')
            return self.loc(n, ast.Attribute(b, n.get('name', '?').lstrip('.').replace('->', ''), ast.Load()))
        if k == 'CXXThisExpr':
            return self.name('this')
        if k == 'ArraySubscriptExpr':
            a, b = inner
            return self.loc(n, ast.Subscript(self.ex(a, pre), self.ex(b, pre), ast.Load()))
        if k == 'UnaryOperator':
            return self.unary(n, inner, pre)
        if k == 'BinaryOperator':
            return self.binary(n, inner, pre)
        if k == 'CompoundAssignOperator':
            self.assign_stmt(n, inner, pre)
            return self.ex(inner[0], [])
        if k == 'ConditionalOperator':
            return self.loc(n, ast.IfExp(self.ex(inner[0], pre), self.ex(inner[1], pre), self.ex(inner[2], pre)))
        if k == 'CallExpr':
            return self.callexpr(n, inner, pre)
        if k == 'CXXMemberCallExpr':
            f = self.ex(inner[0], pre)
            return self.loc(n, ast.Call(f, [self.ex(x, pre) for x in inner[1:]], []))
        if k == 'CXXOperatorCallExpr':
            return self.opcall(n, inner, pre)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXUnresolvedConstructExpr'):
            ty = clean_type(self.ty(n))
            args = [self.ex(x, pre) for x in inner if x.get('kind') != 'CXXDefaultArgExpr']
            if len(args) == 1 and n.get('constructionKind', 'complete') and self.is_copy(n):
                return args[0]
            return self.loc(n, self.call_ctor(ty, args))
        if k == 'InitListExpr':
            return self.loc(n, ast.List([self.ex(x, pre) for x in inner], ast.Load()))
        if k == 'CXXStdInitializerListExpr':
            return self.ex(inner[0], pre)
        if k == 'CXXNewExpr':
            return self.newexpr(n, inner, pre)
        if k == 'CXXDeleteExpr':
            return self.loc(n, self.call('__cdelete__', self.ex(inner[0], pre),
                                         ast.Constant(bool(n.get('isArrayAsWritten') or n.get('isArray')))))
        if k == 'UnaryExprOrTypeTraitExpr':
            at = n.get('argType', {}).get('qualType')
            if at is None and inner:
                at = self.ty(inner[0])
            return self.loc(n, self.call('__csizeof__', ast.Constant(at or '?')))
        if k == 'LambdaExpr':
            return self.lambda_(n, pre)
        if k == 'CXXThrowExpr':
            pre.append(self.throw(n, inner, pre))
            return ast.Constant(None)
        if k == 'ImplicitValueInitExpr' or k == 'CXXScalarValueInitExpr':
            return ast.Constant(0)
        if k == 'CXXTypeidExpr':
            return self.call('__ctypeid__')
        if k == 'ArrayInitLoopExpr' or k == 'OpaqueValueExpr':
            return ast.Constant(None)
        if len(inner) == 1:
            return self.ex(inner[0], pre)
        return self.loc(n, self.call('__copaque__', ast.Constant(k or '?'), *[self.ex(x, pre) for x in inner]))

    def is_copy(self, n):
        return True if len([c for c in n.get('inner', []) if c.get('kind')]) == 1 and (
            n.get('ctorType', {}).get('qualType', '').count('&') >= 1 and
            clean_type(self.ty(n)).split('<')[0].split('::')[-1] in
            n.get('ctorType', {}).get('qualType', '')) else False

    def call_ctor(self, ty, args):
        c = self.call('__cctor__', ast.Constant(ty), *args)
        return c

    def declref(self, n):
        rd = n.get('referencedDecl', {})
        rid = rd.get('id')
        if rid in self.names:
            nm = self.loc(n, ast.Name(self.names[rid], ast.Load()))
            if rid in self.moving:
                return self.loc(n, self.call('__cptradd__', nm, self.loc(n, ast.Name(nm.id + '__off', ast.Load()))))
            return nm
        nm = rd.get('name', '?')
        if rd.get('kind') in ('VarDecl',) and nm in ('value',) or nm.startswith('is_same'):
            txt = self.u.text(n)
            m = re.search(r'is_same(?:_v)?\s*<\s*(.+?)\s*,\s*(.+?)\s*>', txt)
            if m:
                a, b = [self.targs.get(x.strip(), x.strip()) for x in m.groups()]
                return self.loc(n, ast.Constant(a == b))
        if rd.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return self.loc(n, ast.Name(nm, ast.Load()))
        if rd.get('kind') == 'EnumConstantDecl':
            return self.loc(n, ast.Constant('enum:' + nm))
        return self.loc(n, ast.Name(nm, ast.Load()))

    def lval(self, e):
        e = copy.copy(e)
        if isinstance(e, (ast.Name, ast.Subscript, ast.Attribute)):
            e.ctx = ast.Store()
        return e

    def unary(self, n, inner, pre):
        op = n['opcode']
        if op in ('++', '--'):
            pn = self.moved(inner[0])
            if pn:
                pre.append(self.move(n, pn, ast.Constant(1), 1 if op == '++' else -1))
                off = ast.Name(pn + '__off', ast.Load())
                if n.get('isPostfix'):
                    off = self.loc(n, ast.BinOp(off, ast.Sub() if op == '++' else ast.Add(), ast.Constant(1)))
                return self.loc(n, self.call('__cptradd__', ast.Name(pn, ast.Load()), off))
            tg = self.ex(inner[0], pre)
            if n.get('isPostfix'):
                tmp = self.newtmp()
                pre.append(self.loc(n, ast.Assign([ast.Name(tmp, ast.Store())], tg)))
                pre.append(self.loc(n, ast.AugAssign(self.lval(tg), ast.Add() if op == '++' else ast.Sub(),
                                                     ast.Constant(1))))
                return self.loc(n, ast.Name(tmp, ast.Load()))
            pre.append(self.loc(n, ast.AugAssign(self.lval(tg), ast.Add() if op == '++' else ast.Sub(),
                                                 ast.Constant(1))))
            return tg
        e = self.ex(inner[0], pre)
        if op == '-':
            return self.loc(n, ast.UnaryOp(ast.USub(), e))
        if op == '+':
            return e
        if op == '!':
            return self.loc(n, ast.UnaryOp(ast.Not(), e))
        if op == '~':
            return self.loc(n, ast.UnaryOp(ast.Invert(), e))
        if op == '*':
            return self.loc(n, ast.Subscript(e, ast.Constant(0), ast.Load()))
        if op == '&':
            if isinstance(e, ast.Subscript):
                return self.loc(n, self.call('__cptradd__', e.value, e.slice))
            return self.loc(n, self.call('__caddr__', e))
        return e

    BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr,
           '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}
    CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}

    def binary(self, n, inner, pre):
        op = n['opcode']
        if op == '=':
            self.assign_stmt(n, inner, pre)
            return self.ex(inner[0], [])
        if op == ',':
            self.ex_stmt(inner[0], pre)
            return self.ex(inner[1], pre)
        if op in ('&&', '||'):
            a = self.ex(inner[0], pre)
            p2 = []
            b = self.ex(inner[1], p2)
            if p2:
                tmp = self.newtmp()
                pre.append(self.loc(n, ast.Assign([ast.Name(tmp, ast.Store())], a)))
                body = p2 + [self.loc(n, ast.Assign([ast.Name(tmp, ast.Store())], b))]
                test = ast.Name(tmp, ast.Load())
                if op == '||':
                    test = ast.UnaryOp(ast.Not(), test)
                pre.append(self.loc(n, ast.If(test, body, [])))
                return ast.Name(tmp, ast.Load())
            return self.loc(n, ast.BoolOp(ast.And() if op == '&&' else ast.Or(), [a, b]))
        a, b = self.ex(inner[0], pre), self.ex(inner[1], pre)
        if op in self.CMP or op == '-':
            pa, pb = ['*' in self.ty(x) for x in inner[:2]]
            if pa and pb and self.moving:
                d = self.loc(n, self.call('__cptrdiff__', a, b))
                if op == '-':
                    return d
                if op == '!=' and self.loopcond:
                    op = '<'        # a pointer that runs up to the end of its range
                return self.loc(n, ast.Compare(d, [self.CMP[op]()], [ast.Constant(0)]))
        if op in self.CMP:
            return self.loc(n, ast.Compare(a, [self.CMP[op]()], [b]))
        ty = self.ty(n)
        if op in ('+', '-') and '*' in ty:
            if '*' in self.ty(inner[0]):
                if op == '-':
                    b = ast.UnaryOp(ast.USub(), b)
                return self.loc(n, self.call('__cptradd__', a, b))
            return self.loc(n, self.call('__cptradd__', b, a))
        r = self.loc(n, ast.BinOp(a, self.BIN[op](), b))
        if op == '/' and is_int_type(ty):
            r.cint = True
        return r

    def callee(self, n):
        x = n
        while x.get('kind') in SKIP or x.get('kind') == 'UnaryOperator':
            x = [c for c in x.get('inner', []) if c.get('kind')][-1]
        return x

    def callexpr(self, n, inner, pre):
        f = self.callee(inner[0])
        args = [self.ex(x, pre) for x in inner[1:] if x.get('kind') != 'CXXDefaultArgExpr']
        if f.get('kind') == 'DeclRefExpr':
            rd = f.get('referencedDecl', {})
            nm = rd.get('name', '?')
            if rd.get('id') in self.names:
                fn = ast.Name(self.names[rd['id']], ast.Load())
            else:
                fn = ast.Name('__cf_' + nm, ast.Load())
            c = self.loc(n, ast.Call(fn, args, []))
            c.cret = self.ty(n)
            c.cargtypes = [self.ty(x) for x in inner[1:]]
            return c
        fe = self.ex(inner[0], pre)
        if isinstance(fe, ast.Name) and fe.id in ('?',):
            txt = self.u.text(inner[0])
            fe = ast.Name('__cf_' + re.sub(r'<.*', '', txt).split('::')[-1].strip(), ast.Load())
        return self.loc(n, ast.Call(fe, args, []))

    def opcall(self, n, inner, pre):
        f = self.callee(inner[0])
        nm = f.get('referencedDecl', {}).get('name', '')
        args = inner[1:]
        op = nm.replace('operator', '')
        if op == '()':
            fn = self.ex(args[0], pre)
            return self.loc(n, ast.Call(fn, [self.ex(x, pre) for x in args[1:]], []))
        if op == '[]':
            return self.loc(n, ast.Subscript(self.ex(args[0], pre), self.ex(args[1], pre), ast.Load()))
        if op == '<<':
            left = self.ex(args[0], pre)
            if isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == '__cprint__':
                items = left.args
            else:
                items = [ast.Constant(self.callee(args[0]).get('referencedDecl', {}).get('name') or '?')]
            r = self.callee(args[1]).get('referencedDecl', {})
            if r.get('name') in ('endl', 'flush') and 'Var' not in r.get('kind', ''):
                items = items + ([ast.Constant('\n')] if r['name'] == 'endl' else [])
            else:
                items = items + [self.ex(args[1], pre)]
            return self.loc(n, ast.Call(ast.Name('__cprint__', ast.Load()), items, []))
        if op == '=':
            a = self.ex(args[0], pre)
            b = self.ex(args[1], pre)
            pre.append(self.loc(n, ast.Assign([self.lval(a)], b)))
            return a
        if op in ('+=', '-=', '*=', '/='):
            a = self.ex(args[0], pre)
            b = self.ex(args[1], pre)
            pre.append(self.loc(n, ast.AugAssign(self.lval(a), self.BIN[op[0]](), b)))
            return a
        if op in self.CMP and len(args) == 2:
            return self.loc(n, ast.Compare(self.ex(args[0], pre), [self.CMP[op]()], [self.ex(args[1], pre)]))
        if op in ('++', '--'):
            a = self.ex(args[0], pre)
            pre.append(self.loc(n, ast.AugAssign(self.lval(a), ast.Add() if op == '++' else ast.Sub(),
                                                 ast.Constant(1))))
            return a
        if op == '*' and len(args) == 1:
            return self.loc(n, ast.Subscript(self.ex(args[0], pre), ast.Constant(0), ast.Load()))
        if op == '->' and len(args) == 1:
            return self.ex(args[0], pre)
        return self.loc(n, self.call('__copcall__', ast.Constant(op), *[self.ex(x, pre) for x in args]))

    def newexpr(self, n, inner, pre):
        ty = self.ty(n)
        args = [x for x in inner]
        size = None
        init = None
        if n.get('isArray'):
            # size expression comes first
            size = self.ex(args[0], pre)
            if n.get('initStyle') or len(args) > 1:
                init = True
        else:
            init = True
        c = self.loc(n, self.call('__cnew__', size or ast.Constant(1), ast.Constant(clean_type(ty)),
                                  ast.Constant(bool(init)), ast.Constant(bool(n.get('isArray')))))
        return c

    def assign_stmt(self, n, inner, pre):
        pn = self.moved(inner[0])
        b = self.ex(inner[1], pre)
        if pn:
            if n['kind'] == 'CompoundAssignOperator':
                pre.append(self.move(n, pn, b, 1 if n['opcode'] == '+=' else -1))
            else:
                pre.append(self.loc(n, ast.Assign([ast.Name(pn, ast.Store())], b)))
                pre.append(self.move0(n, pn))
            return
        a = self.ex(inner[0], pre)
        if n['kind'] == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            if '*' in self.ty(n):
                pre.append(self.loc(n, ast.Assign([self.lval(a)], self.call(
                    '__cptradd__', a, b if op == '+' else ast.UnaryOp(ast.USub(), b)))))
                return
            s = self.loc(n, ast.AugAssign(self.lval(a), self.BIN[op](), b))
            if op == '/' and is_int_type(self.ty(n)) and is_int_type(n.get('computeResultType', {}).get('qualType',
                                                                                                    'int')):
                s.cint = True
            pre.append(s)
            return
        pre.append(self.loc(n, ast.Assign([self.lval(a)], b)))

    def lambda_(self, n, pre):
        # body is the CompoundStmt child; parameters are in the call operator
        body = None
        params = []
        start = []
        for c in n.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                body = c
            if c.get('kind') == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        for p in m.get('inner', []):
                            if p.get('kind') == 'ParmVarDecl':
                                params.append(self.declare(p))
                                if p['id'] in self.moving:
                                    start.append(self.start(p, params[-1]))
        nm = '_lambda%d' % (len(self.lambdas) + 1)
        self.lambdas[nm] = n
        fd = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params],
                                                        kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=(start + self.block(body)) or [ast.Pass()], decorator_list=[])
        self.loc(n, fd)
        fd.cls = None
        # variables of the enclosing scope assigned in a by-reference lambda
        asg = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        decl = {d.id for d in ast.walk(fd) if isinstance(d, ast.Name) and getattr(d, 'cdecl', False)}
        out = [a for a in asg if a not in decl and not a.startswith('_t')]
        if out:
            fd.body.insert(0, ast.Nonlocal(sorted(out)))
        pre.append(fd)
        return self.loc(n, ast.Name(nm, ast.Load()))

    # ---- statements
    def ex_stmt(self, n, out):
        pre = []
        k = n.get('kind')
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        while k in SKIP and inner:
            n = inner[-1]
            k = n.get('kind')
            inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and self.moved(inner[0]):
            self.ex(n, pre)
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            tg = self.ex(inner[0], pre)
            pre.append(self.loc(n, ast.AugAssign(self.lval(tg), ast.Add() if n['opcode'] == '++' else ast.Sub(),
                                                 ast.Constant(1))))
        elif k in ('CompoundAssignOperator',) or (k == 'BinaryOperator' and n['opcode'] == '='):
            self.assign_stmt(n, inner, pre)
        else:
            e = self.ex(n, pre)
            if isinstance(e, (ast.Call,)):
                pre.append(self.loc(n, ast.Expr(e)))
        out.extend(pre)

    def block(self, n):
        out = []
        if n is None:
            return out
        if n.get('kind') == 'CompoundStmt':
            for c in n.get('inner', []):
                self.st(c, out)
        else:
            self.st(n, out)
        return out

    def st(self, n, out):
        k = n.get('kind')
        if not k:
            return
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k == 'CompoundStmt':
            for c in n.get('inner', []):
                self.st(c, out)
        elif k == 'DeclStmt':
            for c in inner:
                self.decl(c, out)
        elif k == 'NullStmt':
            pass
        elif k == 'ReturnStmt':
            pre = []
            v = self.ex(inner[0], pre) if inner else None
            out.extend(pre)
            out.append(self.loc(n, ast.Return(v)))
        elif k == 'IfStmt':
            pre = []
            xs = list(inner)
            if n.get('hasInit'):
                self.st(xs.pop(0), out)
            if n.get('hasVar'):
                self.decl(xs.pop(0), out)
            c = self.ex(xs[0], pre)
            out.extend(pre)
            a = self.block(xs[1]) if len(xs) > 1 else []
            b = self.block(xs[2]) if n.get('hasElse') and len(xs) > 2 else []
            out.append(self.loc(n, ast.If(c, a or [ast.Pass()], b)))
        elif k == 'ForStmt':
            out.extend(self.for_(n))
        elif k == 'WhileStmt':
            pre = []
            self.loopcond = True
            c = self.ex(inner[0], pre)
            self.loopcond = False
            body = self.block(inner[-1])
            out.append(self.mkwhile(n, c, pre, body, []))
        elif k == 'DoStmt':
            body = self.block(inner[0])
            pre = []
            c = self.ex(inner[1], pre)
            # do B while(c)  ->  while True: B; if not c: break
            tail = pre + [self.loc(n, ast.If(ast.UnaryOp(ast.Not(), c), [self.loc(n, ast.Break())], []))]
            w = self.loc(n, ast.While(ast.Constant(True), body + tail, []))
            out.append(w)
        elif k == 'CXXForRangeStmt':
            out.extend(self.range_for(n))
        elif k == 'BreakStmt':
            out.append(self.loc(n, ast.Break()))
        elif k == 'ContinueStmt':
            out.append(self.loc(n, ast.Continue()))
        elif k == 'CXXTryStmt':
            body = self.block(inner[0])
            hs = []
            for h in inner[1:]:
                hi = [c for c in h.get('inner', []) if c.get('kind')]
                ty = None
                name = None
                for c in hi:
                    if c['kind'] == 'VarDecl':
                        ty = clean_type(self.ty(c)).split('::')[-1]
                        name = self.declare(c) if c.get('name') else None
                b = self.block(hi[-1])
                hd = ast.ExceptHandler(ast.Name(ty, ast.Load()) if ty else None, name, b or [ast.Pass()])
                hs.append(self.loc(h, hd))
            out.append(self.loc(n, ast.Try(body or [ast.Pass()], hs, [], [])))
        elif k.startswith('OMP') and k.endswith('Directive'):
            self.omp(n, inner, out)
        elif k == 'SwitchStmt':
            out.append(self.loc(n, ast.Expr(self.call('__copaque__', ast.Constant('switch')))))
        elif k == 'AttributedStmt':
            for c in inner:
                if c['kind'].endswith('Stmt') or c['kind'].endswith('Expr'):
                    self.st(c, out)
        elif k == 'LabelStmt':
            for c in inner:
                self.st(c, out)
        else:
            x = n
            while x.get('kind') in SKIP:
                x = [c for c in x.get('inner', []) if c.get('kind')][-1]
            if x.get('kind') == 'CXXThrowExpr':
                pre = []
                s = self.throw(x, [c for c in x.get('inner', []) if c.get('kind')], pre)
                out.extend(pre)
                out.append(s)
            else:
                self.ex_stmt(n, out)

    def throw(self, n, inner, pre):
        if not inner:
            return self.loc(n, ast.Raise(None, None))
        e = inner[0]
        ty = clean_type(self.ty(e)).split('::')[-1]
        self.ex(e, pre)
        return self.loc(n, ast.Raise(self.loc(n, self.call('__cexc__', ast.Constant(ty))), None))

    def decl(self, c, out):
        if c['kind'] != 'VarDecl':
            return
        init = [x for x in c.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
        pre = []
        v = None
        if init:
            v = self.ex(init[-1], pre)
        nm = self.declare(c)
        out.extend(pre)
        ty = self.types[nm]
        m = re.search(r'\[(\d*)\]', ty)
        if v is None or (m and not (init and init[-1].get('kind') == 'InitListExpr' and False)):
            if m:
                v = self.call('__carray__', ast.Constant(int(m.group(1)) if m.group(1) else 0),
                              ast.Constant(clean_type(ty)), v or ast.Constant(None))
            elif v is None:
                v = self.call('__cuninit__', ast.Constant(nm), ast.Constant(clean_type(ty)))
        tgt = ast.Name(nm, ast.Store())
        tgt.cdecl = True
        s = self.loc(c, ast.Assign([tgt], v))
        s.cdecl = nm
        s.ctype = ty
        s.cstatic = c.get('storageClass') == 'static'
        out.append(s)
        if c['id'] in self.moving:
            out.append(self.start(c, nm))

    def mkwhile(self, n, c, pre, body, inc):
        if pre:
            body = pre + [self.loc(n, ast.If(ast.UnaryOp(ast.Not(), c), [self.loc(n, ast.Break())], []))] + body
            c = ast.Constant(True)
        w = self.loc(n, ast.While(c, body or [ast.Pass()], []))
        w.inc = inc
        return w

    def for_(self, n):
        xs = n.get('inner', [])
        # init, condvar, cond, inc, body (null children are {})
        init, cv, cond, inc, body = (xs + [{}] * 5)[:5]
        out = []
        if init.get('kind'):
            self.st(init, out)
        pre = []
        self.loopcond = True
        c = self.ex(cond, pre) if cond.get('kind') else ast.Constant(True)
        self.loopcond = False
        b = self.block(body) if body.get('kind') else []
        i = []
        if inc.get('kind'):
            self.ex_stmt(inc, i)
        w = self.mkwhile(n, c, pre, b, i)
        w.forvars = [s.cdecl for s in out if getattr(s, 'cdecl', None)]
        if not w.forvars:
            w.forvars = [x.targets[0].id for x in out if isinstance(x, ast.Assign)
                         and isinstance(x.targets[0], ast.Name)]
        out.append(w)
        return out

    def range_for(self, n):
        xs = [c for c in n.get('inner', [])]
        rng = None
        var = None
        for c in xs:
            if c.get('kind') == 'DeclStmt':
                for d in c.get('inner', []):
                    if d.get('name') == '__range1' or (d.get('name') or '').startswith('__range'):
                        rng = [x for x in d.get('inner', []) if x.get('kind')]
                    elif not (d.get('name') or '').startswith('__'):
                        var = d
        out = []
        if rng is None or var is None:
            return [self.loc(n, ast.Expr(self.call('__copaque__', ast.Constant('rangefor'))))]
        it = self.ex(rng[-1], out)
        nm = self.declare(var)
        body = self.block(xs[-1])
        out.append(self.loc(n, ast.For(ast.Name(nm, ast.Store()), it, body or [ast.Pass()], [])))
        return out

    def omp(self, n, inner, out):
        txt = self.u.pragma(n)
        body = None
        for c in inner:
            x = c
            while x.get('kind') == 'CapturedStmt' or x.get('kind') == 'CapturedDecl':
                cand = [y for y in x.get('inner', []) if y.get('kind') and
                        (y['kind'].endswith('Stmt') or y['kind'] == 'CapturedDecl' or y['kind'].startswith('OMP')
                         or y['kind'].endswith('Operator') or y['kind'].endswith('Expr'))]
                x = cand[0]
            body = x
        info = {'kind': n['kind'], 'clauses': parse_clauses(txt), 'text': txt}
        for cl in ('private', 'firstprivate', 'lastprivate'):
            for v in list(info['clauses'].get(cl, ())):
                info['clauses'][cl] += [x.strip() + '__off' for x in v.split(',') if x.strip() + '__off' in self.types]
        b = []
        if body is not None:
            self.st(body, b)
        if n['kind'] in ('OMPAtomicDirective', 'OMPCriticalDirective', 'OMPMasterDirective', 'OMPSingleDirective'):
            w = ast.With([ast.withitem(self.call('__comp__', ast.Constant(n['kind'])), None)], b or [ast.Pass()])
            w.omp = info
            out.append(self.loc(n, w))
            return
        loop = None
        for s in b:
            if isinstance(s, (ast.While, ast.For)):
                loop = s
        if 'For' in n['kind'] or 'Simd' in n['kind']:
            if loop is not None:
                loop.omp = info
            out.extend(b)
        else:
            w = ast.With([ast.withitem(self.call('__comp__', ast.Constant(n['kind'])), None)], b or [ast.Pass()])
            w.omp = info
            out.append(self.loc(n, w))


def parse_clauses(txt):
    out = {}
    for m in re.finditer(r'(\w+)\s*\(([^()]*)\)', txt):
        out.setdefault(m.group(1), []).append(m.group(2).strip())
    for w in re.findall(r'\b(nowait|ordered)\b', txt):
        out[w] = []
    return out


class Unit:
    """a lowered translation unit."""

    def __init__(self, path, cuda=False, defines=()):
        self.path = path
        self.src = open(path, encoding='utf-8').read() if os.path.exists(path) else ''
        self.bytes = self.src.encode()
        self.docs = dump(path, cuda, defines)
        self.mod = CModule(os.path.splitext(os.path.basename(path))[0], path)
        self.typedefs = {}
        self.funcs = {}     # name -> list of FunctionDef (instantiations)
        self._file = None
        for d in self.docs:
            for c in d.get('inner', []):
                self.top(c, {})

    # -- locations (file/line are delta encoded by clang; recover from offsets)
    def line(self, n):
        r = n.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        off = r.get('offset')
        if off is None:
            return 0, self.path
        return self.bytes[:off].count(b'\n') + 1, self.path

    def text(self, n):
        r = n.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        b = b.get('expansionLoc', b)
        e = e.get('expansionLoc', e)
        if 'offset' not in b or 'offset' not in e:
            return ''
        return self.bytes[b['offset']:e['offset'] + e.get('tokLen', 0)].decode('utf-8', 'replace')

    def pragma(self, n):
        r = n.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        off = r.get('offset', 0)
        # start of the line holding the pragma, honouring line continuations
        s = self.bytes.rfind(b'\n', 0, off) + 1
        e = s
        while True:
            nl = self.bytes.find(b'\n', e)
            if nl < 0:
                nl = len(self.bytes)
            if self.bytes[nl - 1:nl] == b'\\':
                e = nl + 1
                continue
            break
        return self.bytes[s:nl].decode().replace('\\\n', ' ')

    def top(self, n, targs):
        k = n.get('kind')
        if k in ('LinkageSpecDecl', 'NamespaceDecl'):
            for c in n.get('inner', []):
                self.top(c, targs)
        elif k == 'FunctionTemplateDecl':
            tp = [c.get('name') for c in n.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
            for c in n.get('inner', []):
                if c.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'TemplateArgument'
                                                          for x in c.get('inner', [])):
                    ta = [x.get('type', {}).get('qualType') for x in c['inner'] if x.get('kind') == 'TemplateArgument']
                    self.func(c, dict(zip(tp, ta)))
        elif k == 'FunctionDecl':
            self.func(n, targs)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[n.get('name')] = n.get('type', {}).get('desugaredQualType') \
                or n.get('type', {}).get('qualType', '')

    def func(self, n, targs):
        body = [c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt']
        if not body:
            return
        L = Lower(self, targs)
        L.find_moving(body[0])
        params = []
        for p in n.get('inner', []):
            if p.get('kind') == 'ParmVarDecl':
                nm = L.declare(p)
                a = ast.arg(nm)
                a.ctype = L.types[nm]
                params.append(a)
        pre = [L.start(p, L.names[p['id']]) for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl'
               and p['id'] in L.moving]
        fd = ast.FunctionDef(name=n['name'], args=ast.arguments(posonlyargs=[], args=params, kwonlyargs=[],
                                                               kw_defaults=[], defaults=[]),
                             body=(pre + L.block(body[0])) or [ast.Pass()], decorator_list=[])
        L.loc(n, fd)
        ast.fix_missing_locations(fd)
        fd.mod = self.mod
        fd.cls = None
        fd.deco = []
        fd.targs = targs
        fd.ctypes = L.types
        fd.cret = n.get('type', {}).get('qualType', '').split('(')[0].strip()
        fd.attrs = [c.get('kind') for c in n.get('inner', []) if c.get('kind', '').endswith('Attr')]
        fd.unit = self
        fd.json = n if n['name'].startswith('pybind11_init_') else None
        for x in ast.walk(fd):
            if not hasattr(x, 'cfile'):
                x.cfile = self.path
        self.funcs.setdefault(n['name'], []).append(fd)


def jdefs(fn):
    """types of the functions given to the .def calls, in order."""
    out = []

    def ref(n):
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
            return n['referencedDecl'].get('type', {}).get('qualType', '')
        for c in n.get('inner', []):
            r = ref(c)
            if r is not None:
                return r
        return None

    def walk(n):
        for c in n.get('inner', []):
            walk(c)
        if n.get('kind') == 'CXXMemberCallExpr':
            m = n['inner'][0]
            if m.get('kind') == 'MemberExpr' and m.get('name') == 'def':
                for a in n['inner'][1:]:
                    r = ref(a)
                    if r is not None and 'operator' not in r and 'arg' not in r.split('(')[0]:
                        out.append(r)
                        break
                else:
                    out.append('')
    walk(fn)
    return out


class Native:
    """all native functions, resolvable by name."""

    def __init__(self, repo=REPO, cuda=False):
        self.repo = repo
        self.units = {}
        self.by_name = {}

    def add(self, path, cuda=False, defines=()):
        u = Unit(path, cuda, defines)
        self.units[path] = u
        for nm, l in u.funcs.items():
            self.by_name.setdefault(nm, []).extend(l)
        return u

    @classmethod
    def cpp(cls, repo=REPO, files=None):
        from concurrent.futures import ThreadPoolExecutor
        self = cls(repo)
        d = os.path.join(repo, CPP)
        if not os.path.isdir(d):
            raise AnalysisError('native sources not found')
        fs = [f for f in sorted(os.listdir(d)) if f.endswith(('.cpp', '.cc'))]
        if files:
            fs = [f for f in fs if f in files] + [f for f in fs if f not in files and f not in ALL_CPP]
        if not fs:
            raise AnalysisError('no native sources')
        with ThreadPoolExecutor(4) as ex:
            for u in ex.map(lambda f: Unit(os.path.join(d, f)), fs):
                self.units[u.path] = u
                for nm, l in u.funcs.items():
                    for f in l:
                        if not any(g.targs == f.targs and len(g.args.args) == len(f.args.args) and
                                   g.lineno == f.lineno and g.cfile == f.cfile for g in self.by_name.get(nm, [])):
                            self.by_name.setdefault(nm, []).append(f)
        return self

    @classmethod
    def cuda(cls, repo=REPO):
        self = cls(repo)
        d = os.path.join(repo, CUDA)
        for f in sorted(os.listdir(d)):
            if f.endswith('.cu'):
                self.add(os.path.join(d, f), cuda=True)
        return self

    def bindings(self):
        """what the extension module exports: name, native function, argument names and defaults."""
        out = []

        def lit(x):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == '__copaque__' \
                    and len(x.args) > 2 and isinstance(x.args[0], ast.Constant) \
                    and x.args[0].value == 'UserDefinedLiteral' and isinstance(x.args[2], ast.Constant):
                return x.args[2].value
            if isinstance(x, ast.Call) and x.args and isinstance(x.args[0], ast.Constant) \
                    and isinstance(x.args[-1], ast.Constant) and isinstance(x.args[-1].value, str) \
                    and 'arg' in str(x.args[0].value):
                return x.args[-1].value
            return None
        for u in self.units.values():
            for nm, l in u.funcs.items():
                if not nm.startswith('pybind11_init_'):
                    continue
                jd = jdefs(l[0].json)
                k = 0
                pend = {}
                for s in ast.walk(l[0]):
                    s.seen = False
                for s in l[0].body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and lit(s.targets[0]) is not None:
                        pend[lit(s.targets[0])] = s.value
                        continue
                    for c in ast.walk(s):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'def' \
                                and len(c.args) > 1 and isinstance(c.args[0], ast.Constant):
                            f = [y.id for y in ast.walk(c.args[1]) if isinstance(y, ast.Name) and
                                 not y.id.startswith('__')]
                            names, dflt = [], {}
                            for a in c.args[2:]:
                                n = lit(a)
                                if n is not None:
                                    names.append(n)
                                    if n in pend:
                                        dflt[n] = pend[n]
                            ty = jd[k] if k < len(jd) else ''
                            k += 1
                            pend = {}
                            real = 'float' if 'array_t<float' in ty else 'double'
                            out.append({'name': c.args[0].value, 'fn': f[0] if f else None, 'args': names,
                                        'defaults': dflt, 'real': real, 'type': ty, 'line': s.lineno,
                                        'cfile': u.path})
        return out

    def find(self, name, nargs=None, real='double'):
        c = self.by_name.get(name, [])
        if nargs is not None:
            c = [f for f in c if len(f.args.args) == nargs] or c
        if not c:
            return None
        for f in c:
            if not f.targs or real in f.targs.values():
                return f
        return c[0]

    def need(self, name, nargs=None, real='double'):
        f = self.find(name, nargs, real)
        if f is None:
            raise AnalysisError('native function %s not found' % name)
        return f


ALL_CPP = ('reconstruct.cpp', 'kick_and_drift.cpp', 'data_treatment.cpp', 'libtomo.cpp')
