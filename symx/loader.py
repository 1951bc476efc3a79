"""Loads the code under test from its current source, rewritten only where Python would hand a value
to a C routine that cannot take a symbolic one (containment, % formatting, str methods, type())."""
import ast
import builtins
import copy as _copy
import importlib.abc
import importlib.machinery
import importlib.util
import math as _math
import os
import sys
import types

from . import engine as E
from . import values as V
from . import fmt
from . import restr
from . import smath
from .values import Num, SymStr, SymBool, SymChar

REPO = os.environ.get('SYMX_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
TRACKED = ('pygcode', 'euclid3')
HARNESS = ('harness',)


# ---------------------------------------------------------------- rewriting
class Rewrite(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.stack = []

    def call(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=list(keywords)), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.call('_sx_in', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('_sx_mod', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self.call('_sx_mod', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value], node)), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ''
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(self.call('_sx_fv', [v.value, ast.Constant(conv), spec], node))
            else:
                parts.append(v)
        return self.call('_sx_join', [ast.List(elts=parts, ctx=ast.Load())], node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        for k in node.keywords:
            if k.arg is None and not isinstance(k.value, ast.Dict):
                k.value = ast.copy_location(self.call('_sx_kw', [k.value], k.value), k.value)
        f = node.func
        if isinstance(f, ast.Attribute) and (f.attr in fmt.STR_METHODS or f.attr in ('get',)) \
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(func=ast.Name(id='_sx_meth', ctx=ast.Load()),
                                              args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords:
            return self.call('_sx_type', node.args, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return self.call('_sx_getitem', [node.value, node.slice], node)
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        if self.record:
            node.body.insert(1 if _is_doc(node.body) else 0, ast.copy_location(
                ast.Expr(self.call('_sx_enter', [ast.Constant(self.mod + '.' + q)], node.body[0])), node.body[0]))
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(self.call('_sx_tick', [], node)), node.body[0]))
        return node

    visit_While = _loop
    visit_For = _loop


def _is_doc(body):
    return bool(body) and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)


def compile_source(src, path, modname, record=True):
    tree = ast.parse(src, path)
    tree = Rewrite(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


# ---------------------------------------------------------------- runtime helpers
def _container_scan(x, c):
    for k in list(c):
        if k is x or bool(k == x):
            return True
    return False


def _needs_scan(x):
    eng = E.cur()
    if eng is None:
        return False
    if isinstance(x, Num):
        return x.const() is None
    if eng.sym_keys:
        return True
    if isinstance(x, (str, int, float, SymStr)):
        return False
    eng.sym_hash = False
    try:
        hash(x)
    except TypeError:
        pass
    r = eng.sym_hash
    eng.sym_hash = False
    return r


def sx_in(x, c):
    if isinstance(c, (str, SymStr)):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if not isinstance(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
        if isinstance(c, str) and isinstance(x, SymStr) and len(x) == 1:
            return V.c_test(x.chars()[0], V.mask_of([o for o in map(ord, c) if o < 128]))
        return V.s_find(c, x) >= 0
    if isinstance(c, (set, frozenset, dict)) and type(c).__contains__ in _NATIVE_CONTAINS:
        if isinstance(x, SymStr):
            if all(isinstance(k, str) for k in c):
                return any(V.s_eq(x, k) for k in c)
            return any(isinstance(k, (str, SymStr)) and bool(V.s_eq(x, k)) for k in c)
        if _needs_scan(x):
            return _container_scan(x, c)
        return x in c
    if isinstance(c, type({}.keys())):
        if isinstance(x, SymStr) or _needs_scan(x):
            return any(k is x or bool(k == x) for k in c)
    return x in c


_NATIVE_CONTAINS = set([set.__contains__, frozenset.__contains__, dict.__contains__])


def sx_getitem(o, k):
    if isinstance(o, dict):
        if isinstance(k, SymStr):
            for kk in o:
                if isinstance(kk, (str, SymStr)) and V.s_eq(k, kk):
                    return o[kk]
            k = k.native()
        elif not isinstance(k, (str, int, float)) and _needs_scan(k):
            for kk in list(o):
                if kk is k or bool(kk == k):
                    return dict.__getitem__(o, kk)
            if hasattr(type(o), '__missing__'):
                return o.__missing__(k)
            raise KeyError(k)
    return o[k]


def sx_mod(a, b):
    if isinstance(a, SymStr) or (isinstance(a, str)):
        if isinstance(a, str) and _plain(b):
            return a % b
        return fmt.percent(a, b)
    return a % b


def _plain(b):
    if isinstance(b, (str, int, float)) and not isinstance(b, (Num, SymStr)):
        return True
    if type(b) is tuple:
        return all(_plain(x) for x in b)
    return False


def sx_meth(o, name, *a, **k):
    if isinstance(o, str):
        if name not in fmt.ALWAYS and not any(isinstance(x, SymStr) for x in a):
            return getattr(o, name)(*a, **k)
        if name == 'get':
            return getattr(o, name)
        return fmt.STR_METHODS[name](o, *a, **k)
    if name == 'get' and isinstance(o, dict) and a:
        try:
            if sx_in(a[0], o):
                return sx_getitem(o, a[0])
        except TypeError:
            pass
        else:
            return a[1] if len(a) > 1 else k.get('default')
    if o is _SHIM_STR:
        return fmt.STR_METHODS[name](*a, **k) if name in fmt.STR_METHODS else getattr(str, name)(*a, **k)
    return getattr(o, name)(*a, **k)


def sx_fv(v, conv, spec):
    if conv == 'r' or conv == 'a':
        v = fmt.sx_repr(v)
    elif conv == 's':
        v = fmt.sx_str(v)
    return fmt.sx_format(v, spec)


def sx_join(parts):
    return fmt.m_join('', parts)


def sx_enter(q):
    eng = E.cur()
    if eng is not None:
        eng.stats.functions.add(q)
        eng.tick()


def sx_tick():
    eng = E.cur()
    if eng is not None:
        eng.tick()


# ---------------------------------------------------------------- builtin shims
class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.native) or cls.sym(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(getattr(c, 'native', c), cls.native)

    def __eq__(cls, o):
        return o is cls or o is cls.native

    def __ne__(cls, o):
        return not (o is cls or o is cls.native)

    def __hash__(cls):
        return hash(cls.native)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, 'native'), name)

    def __repr__(cls):
        return repr(cls.native)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __or__(cls, o):
        return (cls, o)
    __ror__ = __or__


class ShimFloat(metaclass=_ShimMeta):
    native = float
    __name__ = 'float'

    @staticmethod
    def sym(x):
        return isinstance(x, Num) and not x.isint

    make = staticmethod(fmt.to_float)


class ShimInt(metaclass=_ShimMeta):
    native = int

    @staticmethod
    def sym(x):
        return (isinstance(x, Num) and x.isint) or isinstance(x, SymBool)

    make = staticmethod(fmt.to_int)


class ShimBool(metaclass=_ShimMeta):
    native = bool

    @staticmethod
    def sym(x):
        return isinstance(x, SymBool)

    make = staticmethod(lambda x=False: bool(x))


class ShimStr(metaclass=_ShimMeta):
    native = str

    @staticmethod
    def sym(x):
        return isinstance(x, SymStr)

    make = staticmethod(lambda x='', *a: fmt.sx_str(x) if not a else str(x, *a))


for _c, _n in ((ShimFloat, 'float'), (ShimInt, 'int'), (ShimBool, 'bool'), (ShimStr, 'str')):
    _c.__name__ = _n
    _c.__qualname__ = _n
_SHIM_STR = ShimStr
_BY_NATIVE = {float: ShimFloat, int: ShimInt, bool: ShimBool, str: ShimStr}


def sx_kw(d):
    """Mapping given as **d: keyword names have to be native text."""
    keys = list(d.keys())
    if not any(isinstance(k, V.SymStr) for k in keys):
        return d
    out = {}
    for k in keys:
        v = d[k]
        out[k.native() if isinstance(k, V.SymStr) else k] = v
    return out


def sx_type(x):
    if isinstance(x, Num):
        return ShimInt if x.isint else ShimFloat
    if isinstance(x, SymStr):
        return ShimStr
    if isinstance(x, SymBool):
        return ShimBool
    t = type(x)
    return _BY_NATIVE.get(t, t)


import numbers as _numbers


def sx_isinstance(x, c):
    if isinstance(c, tuple):
        return any(sx_isinstance(x, d) for d in c)
    if isinstance(x, (Num, SymStr, SymBool)):
        if isinstance(c, types.UnionType):
            return any(sx_isinstance(x, d) for d in c.__args__)
        if c is object:
            return True
        if isinstance(x, Num):
            n = int if x.isint else float
        elif isinstance(x, SymStr):
            n = str
        else:
            n = bool
        c = getattr(c, 'native', c) if isinstance(c, _ShimMeta) else c
        return issubclass(n, c)
    return isinstance(x, c)


def sx_issubclass(a, c):
    if isinstance(a, _ShimMeta):
        a = a.native
    if isinstance(c, tuple):
        return any(sx_issubclass(a, d) for d in c)
    if isinstance(c, _ShimMeta):
        c = c.native
    return issubclass(a, c)


def sx_round(x, n=None):
    if isinstance(x, Num):
        return V.num_round(x, n)
    if isinstance(n, Num):
        n = n.__index__()
    return round(x, n) if n is not None else round(x)


def sx_hash(x):
    eng = E.cur()
    if eng is not None and eng.hash_mode == 'uf':
        return uf_hash(x)
    return hash(x)


def uf_hash(x):
    """Hash as an uninterpreted function of the hashed value (equal values, equal hashes; nothing else)."""
    eng = E.cur()
    terms = []

    def shape(v):
        if isinstance(v, (Num,)) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
            n = Num.of(v)
            a = V.atom_num(V.new_atom(eng.fresh('h')))
            eng.add(V.b_f(a == Num(n.p)))
            e, s = V.p_z3(a.p)
            terms.append(e)
            return 'n'
        if isinstance(v, str):
            return 's:' + v
        if isinstance(v, SymStr):
            return 's:' + v.native()
        if isinstance(v, (tuple, list)):
            return '(' + ','.join(shape(i) for i in v) + ')'
        if isinstance(v, frozenset):
            raise E.Unsupported('hash of a frozenset')
        if v is None or isinstance(v, bool):
            return repr(v)
        h = type(v).__hash__
        if h is object.__hash__:
            return 'id:%d' % id(v)
        r = h(v)
        return 'h' + shape(r)
    s = shape(x)
    name = 'hash!' + s
    if not terms:
        t = V.z3.Int(name)
    else:
        f = V.z3.Function(name, *([V.z3.RealSort()] * len(terms) + [V.z3.IntSort()]))
        t = f(*terms)
    return V.atom_num(V.atom_for_term(t))


def sx_len(x):
    return len(x)


def _attr(name):
    return name.native() if isinstance(name, SymStr) else name


def sx_getattr(o, name, *d):
    return getattr(o, _attr(name), *d)


def sx_setattr(o, name, v):
    return setattr(o, _attr(name), v)


def sx_hasattr(o, name):
    return hasattr(o, _attr(name))


def sx_ord(c):
    if isinstance(c, SymStr):
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError('ord() expected a character')
        if type(cs[0]) is str:
            return ord(cs[0])
        cs[0].link()
        return V.atom_num(V.atom_for_term(cs[0].z))
    return ord(c)


def sx_chr(n):
    return chr(int(n))


def sx_print(*a, **k):
    eng = E.cur()
    sep = k.get('sep') or ' '
    end = k.get('end', '\n')
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(sep)
        out.append(fmt.sx_str(x))
    text = fmt.m_join('', out + [end])
    if eng is not None:
        eng.printed.append(text)


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _sx_minmax(native, ismin):
    def f(*a, **k):
        if len(a) == 1:
            a = list(a[0])
            if not a:
                return native(a, **k)
        key = k.get('key')
        if key is None and any(isinstance(x, Num) for x in a) and all(isinstance(x, (Num, int, float)) for x in a):
            r = Num.of(a[0])
            for x in a[1:]:
                r = V.num_minmax(r, Num.of(x), ismin)
            return r
        if key is None and not any(isinstance(x, (Num, SymStr)) for x in a):
            return native(a, **k)
        best = a[0]
        for x in a[1:]:
            p, q = (x, best) if key is None else (key(x), key(best))
            if (p < q) if ismin else (p > q):
                best = x
        return best
    return f


sx_min = _sx_minmax(min, True)
sx_max = _sx_minmax(max, False)


def sx_abs(x):
    return abs(x)


def sx_pow(a, b, *m):
    return pow(a, b, *m)


def sx_bool(x):
    return bool(x)


# ---------------------------------------------------------------- modules seen by the code
def _mkmod(name, ns):
    m = types.ModuleType(name)
    m.__dict__.update(ns)
    return m


import re as _re
RE = _mkmod('re', dict((k, getattr(_re, k)) for k in dir(_re) if not k.startswith('__')))
for _k in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split'):
    setattr(RE, _k, restr._mod(_k))
RE.compile = restr.compile
RE.Pattern = restr.Pattern
RE.Match = restr.Match


def _re_sub(pattern, repl, string, count=0, flags=0):
    return restr.compile(pattern, flags).sub(repl, string, count)


def _re_split(pattern, string, maxsplit=0, flags=0):
    return restr.compile(pattern, flags).split(string, maxsplit)


RE.sub = _re_sub
RE.split = _re_split
MATH = _mkmod('math', dict((k, getattr(_math, k)) for k in dir(_math) if not k.startswith('__')))
for _k in dir(smath):
    if hasattr(_math, _k):
        setattr(MATH, _k, getattr(smath, _k))
OPERATOR = None
SHIMS = {'re': RE, 'math': MATH}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update({
        'float': ShimFloat, 'int': ShimInt, 'str': ShimStr, 'bool': ShimBool,
        'isinstance': sx_isinstance, 'issubclass': sx_issubclass, 'round': sx_round, 'hash': sx_hash,
        'getattr': sx_getattr, 'setattr': sx_setattr, 'hasattr': sx_hasattr, 'ord': sx_ord, 'chr': sx_chr,
        'print': sx_print, 'repr': fmt.sx_repr, 'format': fmt.sx_format, 'sum': sx_sum, 'min': sx_min, 'max': sx_max,
        '__import__': sx_import,
        '_sx_in': sx_in, '_sx_mod': sx_mod, '_sx_fv': sx_fv, '_sx_join': sx_join, '_sx_meth': sx_meth,
        '_sx_kw': sx_kw, '_sx_type': sx_type, '_sx_getitem': sx_getitem, '_sx_enter': sx_enter, '_sx_tick': sx_tick,
    })
    return d


BUILTINS = make_builtins()


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        if fullname.split('.')[0] in HARNESS:
            return compile_source(src, path, fullname, record=False)
        return compile_source(src, path, fullname)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = BUILTINS
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top == 'pygcode':
            base = SRC
        elif top == 'euclid3':
            base = VENV_SITE
        elif top in HARNESS:
            base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        else:
            return None
        rel = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(rel):
            f = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f),
                                                          submodule_search_locations=[rel])
        f = rel + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


_installed = [False]


def install():
    if not _installed[0]:
        _installed[0] = True
        sys.meta_path.insert(0, Finder())
        if VENV_SITE not in sys.path:
            sys.path.append(VENV_SITE)


def compile_script(path):
    with open(path) as f:
        return compile_source(f.read(), path, os.path.basename(path))
