"""Contexts given to harnesses."""
import math
import os
import sys
from fractions import Fraction


class Violation(Exception):
    def __init__(self, label, info=None):
        Exception.__init__(self, label)
        self.label = label
        self.info = info


class AssumeFailed(Exception):
    pass


class Lib(object):
    """Lazy access to the library under test."""
    def __getattr__(self, name):
        import importlib
        if name in ('gcodes', 'machine', 'words', 'block', 'line', 'comment', 'transform', 'utils', 'exceptions', 'dialects'):
            m = importlib.import_module('pygcode.' + name)
        elif name == 'euclid3':
            m = importlib.import_module('euclid3')
        else:
            for mod in ('gcodes', 'machine', 'words', 'block', 'line', 'comment', 'transform', 'utils', 'exceptions'):
                mm = getattr(self, mod)
                if hasattr(mm, name):
                    m = getattr(mm, name)
                    break
            else:
                raise AttributeError(name)
        setattr(self, name, m)
        return m


class BaseCtx(object):
    TOL = 1e-6

    def subset(self, name, items):
        return [x for x in items if self.boolean('%s_%s' % (name, x))]

    def check(self, cond, label, info=None):
        raise NotImplementedError

    def check_close(self, a, b, label, tol=None, info=None):
        self.check(self.close(a, b, tol), label, info if info is not None else (a, b))

    def attempt(self, fn, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def must_raise(self, fn, types, label):
        v, e = self.attempt(fn)
        self.check(e is not None and isinstance(e, types), label, e if e is not None else 'no exception')
        return e

    def eqdict(self, a, b, tol=None):
        if set(a) != set(b):
            return False
        return self.And(*[self.close(a[k], b[k], tol) for k in sorted(a)])


# ---------------------------------------------------------------- symbolic
class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, tier='quick'):
        from . import engine, values, fmt
        self.eng = eng
        self.E = engine
        self.V = values
        self.fmt = fmt
        self.lib = LIB
        self.tier = tier

    # inputs
    def real(self, name, lo=-1000000, hi=1000000, lo_open=False, hi_open=False):
        V = self.V
        a = V.new_atom(name, isint=False, pos=(lo > 0 or (lo == 0 and lo_open)))
        self.eng.inputs[name] = ('real', a.z)
        n = V.atom_num(a)
        self.eng.add(V.b_f(V.mkb(a.z > V.z3.RealVal(str(V.frac(lo))) if lo_open else a.z >= V.z3.RealVal(str(V.frac(lo))))))
        self.eng.add(V.b_f(V.mkb(a.z < V.z3.RealVal(str(V.frac(hi))) if hi_open else a.z <= V.z3.RealVal(str(V.frac(hi))))))
        return n

    def integer(self, name, lo, hi):
        V = self.V
        a = V.new_atom(name, isint=True, pos=lo > 0)
        self.eng.inputs[name] = ('int', a.z)
        self.eng.add(a.z >= int(lo))
        self.eng.add(a.z <= int(hi))
        return V.atom_num(a)

    def decimal(self, name, places=3, lo=-1000, hi=1000):
        """A number with at most `places` decimals."""
        s = 10 ** places
        k = self.integer(name, math.ceil(lo * s), math.floor(hi * s))
        return self.V.Num(self.V.p_scale(k.p, Fraction(1, s)), False)

    def choice(self, name, options):
        options = list(options)
        old = self.eng.inputs.get(name)
        if old is not None and old[1] < len(options):   # the same name is the same input
            return options[old[1]]
        i = self.eng.choose(len(options))
        self.eng.inputs[name] = ('choice', i)
        return options[i]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def char(self, name, alphabet):
        return self.V.mkstr([self._char(name, alphabet)])

    def _char(self, name, alphabet):
        old = self.eng.inputs.get(name)
        if old is not None:
            return old[1]
        c = self.V.SymChar(name, self.V.mask_of(alphabet))
        self.eng.inputs[name] = ('char', c)
        return c

    def text(self, name, alphabet, length):
        if length == 0:
            return ''
        cs = []
        for i in range(length):
            cs.append(self._char('%s[%d]' % (name, i), alphabet))
        return self.V.mkstr(cs)

    def chars(self, s):
        """Characters of a string as 1-character strings."""
        return [self.V.mkstr([c]) for c in self.V.items_of(s)] if isinstance(s, str) else [self.V.mkstr([c]) for c in s.chars()]

    def decide(self, cond):
        return bool(cond)

    def isin(self, c, alphabet):
        """Whether a 1-character string is one of the characters."""
        return self.V.c_test(self.V.items_of(c)[0], self.V.mask_of(alphabet))

    # logic
    def And(self, *bs):
        return self.V.b_and(*bs)

    def Or(self, *bs):
        return self.V.b_or(*bs)

    def Not(self, b):
        return self.V.b_not(b)

    def Implies(self, a, b):
        return self.V.b_or(self.V.b_not(a), b)

    def Iff(self, a, b):
        return self.V.b_iff(a, b)

    def close(self, a, b, tol=None):
        t = self.V.frac(self.TOL if tol is None else tol) * 2
        if a is None or b is None:
            return a is None and b is None
        d = self.V.Num.of(a) - self.V.Num.of(b)
        return self.V.b_and(d <= t, d >= -t)

    def le(self, a, b, tol=None):
        t = self.V.frac(self.TOL if tol is None else tol) * 2
        return (self.V.Num.of(a) - self.V.Num.of(b)) <= t

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.eng.cut_reason = None
                raise self.E.PathAbort()
            return
        self.eng.add(cond.f)
        if self.eng.model is None:
            r, m = self.eng._check()
            if r == self.V.z3.unsat:
                raise self.E.PathAbort()
            if m is not None:
                self.eng.model = m

    def check(self, cond, label, info=None):
        if isinstance(cond, self.V.SymBool):
            self.eng.check(cond.f, label, info)
        else:
            self.eng.check(bool(cond), label, info)

    def reach(self, label):
        self.eng.reach(label)

    def number_in(self, v):
        return v

    # hashing as an uninterpreted function
    def hash_of(self, x):
        self.eng.hash_mode = 'uf'
        try:
            return type(x).__hash__(x)
        finally:
            self.eng.hash_mode = 'const'

    # scripts
    def run_script(self, name, argv, lines):
        """(printed lines, exit) of a command line script on the given input lines."""
        from . import scripts
        return scripts.run_symbolic(self.eng, name, argv, lines)

    def scan(self, text):
        from . import gtext
        return gtext.scan_sym(self, text)

    def fmt_num(self, v):
        return self.fmt.sx_str(v)

    def str(self, x):
        return self.fmt.sx_str(x)

    def atan2(self, y, x):
        from . import smath
        return smath.atan2(y, x)

    def sqrt(self, x):
        from . import smath
        return smath.sqrt(x)


class _SymLib(Lib):
    pass


LIB = _SymLib()


# ---------------------------------------------------------------- concrete
class ConCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, tier='quick', perturb=0):
        self.inputs = inputs
        self.lib = LIB
        self.tier = tier
        self.reached = []

    def _get(self, name, kind):
        v = self.inputs.get(name)
        if v is None:
            return None
        return v.get(kind)

    def real(self, name, lo=-1000000, hi=1000000, lo_open=False, hi_open=False):
        v = self._get(name, 'real')
        if v is None:
            if lo <= 0 <= hi and not (lo == 0 and lo_open):
                return 0.0
            return (float(lo) + float(hi)) / 2
        return float(Fraction(int(v[0]), int(v[1])))

    def integer(self, name, lo, hi):
        v = self._get(name, 'int')
        if v is None:
            return max(int(lo), min(int(hi), 0))
        return int(v)

    def decimal(self, name, places=3, lo=-1000, hi=1000):
        k = self.integer(name, math.ceil(lo * 10 ** places), math.floor(hi * 10 ** places))
        return float(Fraction(k, 10 ** places))

    def choice(self, name, options):
        options = list(options)
        v = self._get(name, 'choice')
        return options[v or 0]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def char(self, name, alphabet):
        v = self._get(name, 'char')
        if v is None:
            return sorted(alphabet)[0]
        return chr(v)

    def text(self, name, alphabet, length):
        return ''.join(self.char('%s[%d]' % (name, i), alphabet) for i in range(length))

    def chars(self, s):
        return list(s)

    def decide(self, cond):
        return bool(cond)

    def isin(self, c, alphabet):
        return c in alphabet

    def And(self, *bs):
        return all(bs)

    def Or(self, *bs):
        return any(bs)

    def Not(self, b):
        return not b

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def close(self, a, b, tol=None):
        if a is None or b is None:
            return a is None and b is None
        t = self.TOL if tol is None else tol
        return abs(a - b) <= t + 1e-9 * max(abs(a), abs(b))

    def le(self, a, b, tol=None):
        t = self.TOL if tol is None else tol
        return a - b <= t + 1e-9 * max(abs(a), abs(b))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, info=None):
        self.reached.append(label)
        if not cond:
            raise Violation(label, info)

    def reach(self, label):
        self.reached.append(label)

    def hash_of(self, x):
        return hash(x)

    def run_script(self, name, argv, lines):
        from . import scripts
        return scripts.run_concrete(name, argv, lines)

    def scan(self, text):
        from . import gtext
        return gtext.scan_con(self, text)

    def fmt_num(self, v):
        return str(v)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def sqrt(self, x):
        return math.sqrt(x)

    def str(self, x):
        return str(x)
