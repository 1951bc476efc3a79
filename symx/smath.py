"""math for symbolic numbers: exact on constants (computed by the real math module), algebraic or
lemma based otherwise."""
import math as _m
from fractions import Fraction

from . import engine as E
from . import values as V
from .values import Num, p_const, frac

pi = _m.pi
e = _m.e
tau = _m.tau
inf = _m.inf
nan = _m.nan


def _native(x):
    """Native float of a constant, else None."""
    if isinstance(x, Num):
        c = p_const(x.p)
        return None if c is None else float(c)
    if isinstance(x, V.SymBool):
        return float(bool(x))
    return x


def sqrt(x):
    if not isinstance(x, Num):
        return _m.sqrt(x)
    return V.num_sqrt(x)


def ceil(x):
    if not isinstance(x, Num):
        return _m.ceil(x)
    return V.num_ceil(x)


def floor(x):
    if not isinstance(x, Num):
        return _m.floor(x)
    return V.num_floor(x)


def trunc(x):
    if not isinstance(x, Num):
        return _m.trunc(x)
    return V.num_trunc(x)


def fabs(x):
    if not isinstance(x, Num):
        return _m.fabs(x)
    r = abs(x)
    return Num(r.p, False)


def copysign(x, y):
    if isinstance(x, Num) or isinstance(y, Num):
        r = abs(x)
        return r if bool(Num.of(y) >= 0) else -r
    return _m.copysign(x, y)


def fmod(x, y):
    if isinstance(x, Num) or isinstance(y, Num):
        q = V.num_trunc(V.num_div(Num.of(x), Num.of(y)))
        return x - q * y
    return _m.fmod(x, y)


def hypot(*a):
    if any(isinstance(x, Num) for x in a):
        return V.num_sqrt(Num.of(sum(x * x for x in a)))
    return _m.hypot(*a)


def dist(p, q):
    return hypot(*[a - b for a, b in zip(p, q)])


def pow(x, y):
    if isinstance(x, Num) or isinstance(y, Num):
        return x ** y
    return _m.pow(x, y)


def isnan(x):
    return False if isinstance(x, Num) else _m.isnan(x)


def isinf(x):
    return False if isinstance(x, Num) else _m.isinf(x)


def isfinite(x):
    return True if isinstance(x, Num) else _m.isfinite(x)


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, Num) or isinstance(b, Num):
        d = abs(a - b)
        return V.b_or(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)
    return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def modf(x):
    if isinstance(x, Num):
        t = V.num_trunc(x)
        return (x - t, t)
    return _m.modf(x)


def radians(x):
    if isinstance(x, Num):
        return x * (_m.pi / 180)
    return _m.radians(x)


def degrees(x):
    if isinstance(x, Num):
        return x * (180 / _m.pi)
    return _m.degrees(x)


def _trig_atom(name, x, lo, hi):
    eng = E.cur()
    key = (name, V.p_key(x.p))
    a = eng.memo.get(key)
    if a is None:
        a = V.new_atom(eng.fresh(name), rule=(name, x.p))
        eng.memo[key] = a
        if lo is not None:
            eng.add(V.b_f(V.b_and(V.atom_num(a) >= lo, V.atom_num(a) <= hi)))
    return V.atom_num(a)


def cos(x):
    n = _native(x)
    if n is not None:
        return _m.cos(n)
    r = _inverse_arg(x, 'acos')
    if r is not None:
        return r
    c = _trig_atom('cos', x, -1, 1)
    _pyth(x)
    return c


def sin(x):
    n = _native(x)
    if n is not None:
        return _m.sin(n)
    s = _trig_atom('sin', x, -1, 1)
    _pyth(x)
    return s


def _pyth(x):
    eng = E.cur()
    key = ('pyth', V.p_key(x.p))
    if key in eng.memo:
        return
    eng.memo[key] = True
    c = _trig_atom('cos', x, -1, 1)
    s = _trig_atom('sin', x, -1, 1)
    eng.add(V.b_f(c * c + s * s == 1))


def _inverse_arg(x, rule):
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = E.cur().atoms[m[0][0]]
            if a.rule is not None and a.rule[0] == rule:
                return Num(dict(a.rule[1]))
    return None


def tan(x):
    n = _native(x)
    if n is not None:
        return _m.tan(n)
    return sin(x) / cos(x)


def acos(x):
    n = _native(x)
    if n is not None:
        return _m.acos(n)
    if bool(x > 1) or bool(x < -1):
        raise ValueError('math domain error')
    eng = E.cur()
    if bool(x == 1):
        return 0.0
    key = ('acos', V.p_key(x.p))
    a = eng.memo.get(key)
    if a is None:
        a = V.new_atom(eng.fresh('acos'), pos=True, rule=('acos', x.p))
        eng.memo[key] = a
        eng.defer_def(('acos', a))
    return V.atom_num(a)


def asin(x):
    n = _native(x)
    if n is not None:
        return _m.asin(n)
    return _m.pi / 2 - acos(x)


def atan(x):
    n = _native(x)
    if n is not None:
        return _m.atan(n)
    raise E.Unsupported('atan of a symbolic value')


def atan2(y, x):
    ny, nx = _native(y), _native(x)
    if ny is not None and nx is not None:
        return _m.atan2(ny, nx)
    y, x = Num.of(y), Num.of(x)
    if E.cur().subst:
        y, x = Num(V.p_subst(y.p)), Num(V.p_subst(x.p))
        ny, nx = y.native(), x.native()
        if ny is not None and nx is not None:
            return _m.atan2(ny, nx)
    # common positive factor
    atoms = E.cur().atoms
    mono = None
    for p in (y.p, x.p):
        for m in p:
            if mono is None:
                mono = m
            elif m != mono:
                mono = False
                break
        if mono is False:
            break
    if mono is not False and mono and all(atoms[a].pos or e % 2 == 0 for a, e in mono):
        return _m.atan2(float(y.p.get(mono, 0)), float(x.p.get(mono, 0)))
    # both sides proportional to the same polynomial
    for p in (y.p, x.p):
        if p:
            base = p
    try:
        ry = V.num_div(y, Num(base)) if y.p else Num({})
        rx = V.num_div(x, Num(base)) if x.p else Num({})
        cy, cx = p_const(ry.p), p_const(rx.p)
        if cy is not None and cx is not None:
            if bool(Num(base) > 0):
                return _m.atan2(float(cy), float(cx))
            return _m.atan2(-float(cy), -float(cx))
    except ZeroDivisionError:
        return 0.0
    raise E.Unsupported('atan2 of symbolic values')


def gcd(*a):
    return _m.gcd(*[int(x) for x in a])


def exp(x):
    n = _native(x)
    if n is None:
        raise E.Unsupported('exp')
    return _m.exp(n)


def log(x, *b):
    n = _native(x)
    if n is None:
        raise E.Unsupported('log')
    return _m.log(n, *b)


def log10(x):
    n = _native(x)
    if n is None:
        raise E.Unsupported('log10')
    return _m.log10(n)


def fsum(it):
    t = 0.0
    for x in it:
        t = t + x
    return t


def prod(it, start=1):
    for x in it:
        start = start * x
    return start
