"""Symbolic numbers, booleans and strings.

Num      a number: Laurent polynomial with rational coefficients over atoms.  An atom is a z3 constant;
         some carry a rule (square root, fraction, arc cosine) used to keep queries simple.
SymBool  a z3 formula; its truth value is decided by the engine (which forks).
SymChar  one character, given by a 128-bit set of possible ASCII codes (and a z3 Int once linked).
SymStr   a string of native characters, SymChars and lazily formatted numbers (NumSeg).
"""
import math as _math
from fractions import Fraction
import z3

from . import engine as E

ZERO = Fraction(0)
ONE = Fraction(1)

_fcache = {}


def frac(x):
    """Exact rational of a native number; floats are read as the decimal they print as."""
    if type(x) is float:
        r = _fcache.get(x)
        if r is None:
            if x != x or x in (float('inf'), float('-inf')):
                raise E.Unsupported('non-finite float')
            r = Fraction(repr(x))
            if len(_fcache) < 200000:
                _fcache[x] = r
        return r
    return Fraction(x)


class Atom(object):
    __slots__ = ('i', 'z', 'isint', 'pos', 'rule', 'name')

    def __init__(self, i, z, isint, pos, rule, name):
        self.i = i
        self.z = z
        self.isint = isint
        self.pos = pos
        self.rule = rule
        self.name = name


def new_atom(name, isint=False, pos=False, rule=None):
    eng = E.cur()
    z = z3.Int(name) if isint else z3.Real(name)
    a = Atom(len(eng.atoms), z, isint, pos, rule, name)
    eng.atoms.append(a)
    return a


def atom_for_term(term, pos=False):
    eng = E.cur()
    k = term.get_id()
    a = eng.atom_by_key.get(k)
    if a is None:
        a = Atom(len(eng.atoms), term, term.is_int(), pos, None, str(term))
        eng.atoms.append(a)
        eng.atom_by_key[k] = a
    return a


def num_minmax(x, y, ismin):
    """min/max of two numbers without forking: a fresh atom defined by cases."""
    b = (x <= y) if ismin else (x >= y)
    if isinstance(b, bool):
        return x if b else y
    if not (_plain_poly(x.p) and _plain_poly(y.p)) or x.isint != y.isint:
        return x if b else y
    eng = E.cur()
    key = ('mm', ismin, p_key(x.p), p_key(y.p))
    a = eng.memo.get(key)
    if a is None:
        a = new_atom(eng.fresh('min' if ismin else 'max'), x.isint, False, ('minmax', dict(x.p), dict(y.p), ismin))
        eng.memo[key] = a
    return atom_num(a)


def _plain_poly(p):
    atoms = E.cur().atoms
    for m in p:
        if len(m) > 1:
            return False
        for a, e in m:
            if e != 1:
                return False
            r = atoms[a].rule
            if r is not None and r[0] != 'minmax':
                return False
    return True


def atom_num(a):
    return Num({((a.i, 1),): ONE}, a.isint)


# ---------------------------------------------------------------- polynomial helpers
def p_add(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if sb == 1 else -c
        else:
            v = v + c if sb == 1 else v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def p_scale(a, c):
    if not c:
        return {}
    if c == 1:
        return dict(a)
    return {m: v * c for m, v in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, ZERO) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return _reduce(r)


def _reduce(p):
    """Replace squares of square-root atoms."""
    atoms = E.cur().atoms
    again = False
    for m in p:
        for a, e in m:
            if e >= 2 and atoms[a].rule is not None and atoms[a].rule[0] == 'sqrt':
                again = True
                break
        if again:
            break
    if not again:
        return p
    out = {}
    for m, c in p.items():
        hit = None
        for a, e in m:
            if e >= 2 and atoms[a].rule is not None and atoms[a].rule[0] == 'sqrt':
                hit = (a, e)
                break
        if hit is None:
            t = {m: c}
        else:
            a, e = hit
            rest = tuple(x for x in m if x[0] != a)
            if e % 2:
                rest = tuple(sorted(rest + ((a, 1),)))
            t = {rest: c}
            sq = atoms[a].rule[1]
            for _ in range(e // 2):
                t = p_mul(t, sq)
        out = p_add(out, t)
    return out


def p_const(p):
    if not p:
        return ZERO
    if len(p) == 1 and () in p:
        return p[()]
    return None


def p_key(p):
    return tuple(sorted(p.items()))


def p_clear(p):
    """Multiply by positive quantities until no negative exponent and no positive-denominator fraction
    atom is left; divides out common positive monomials.  The sign of p is unchanged."""
    atoms = E.cur().atoms
    for _ in range(50):
        # fraction atoms  q = num/den, den > 0, of degree one everywhere
        target = None
        for m in p:
            for a, e in m:
                r = atoms[a].rule
                if r is not None and r[0] == 'frac' and r[3]:
                    target = a if target is None else max(target, a)
        if target is None:
            break
        num, den = atoms[target].rule[1], atoms[target].rule[2]
        dmax = max([dict(m).get(target, 0) for m in p])
        dmin = min([dict(m).get(target, 0) for m in p])
        if dmin < 0 or dmax > 3:
            break
        out = {}
        for m, c in p.items():
            d = dict(m).get(target, 0)
            t = {tuple(x for x in m if x[0] != target): c}
            for _i in range(d):
                t = p_mul(t, num)
            for _i in range(dmax - d):
                t = p_mul(t, den)
            out = p_add(out, t)
        p = out
        if not p:
            return p
    mins = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            mins = dict(d)
            first = False
            for a in list(mins):
                if not atoms[a].pos:
                    del mins[a]
        else:
            for a in list(mins):
                if a not in d:
                    mins[a] = min(mins[a], 0)
                else:
                    mins[a] = min(mins[a], d[a])
            for a in d:
                if a not in mins and atoms[a].pos:
                    mins[a] = min(0, d[a])
    shift = tuple(sorted((a, -e) for a, e in mins.items() if e))
    if shift:
        p = {m_mul(m, shift): c for m, c in p.items()}
    return p


def p_sign(p):
    """Syntactic sign: 1, 0, -1 or None."""
    if not p:
        return 0
    atoms = E.cur().atoms
    s = None
    for m, c in p.items():
        for a, e in m:
            if not atoms[a].pos and e % 2:
                return None
            if not atoms[a].pos and e % 2 == 0:
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def p_z3(p):
    """z3 term (Int when possible) of an integer multiple of p (positive scale); and the scale."""
    atoms = E.cur().atoms
    for m in p:
        for a, e in m:
            if atoms[a].rule is not None:
                E.cur().define(atoms[a])
    lcm = 1
    for c in p.values():
        d = c.denominator
        lcm = lcm * d // _math.gcd(lcm, d)
    allint = all(atoms[a].isint for m in p for a, e in m)
    g = 0
    for c in p.values():
        g = _math.gcd(g, abs(int(c * lcm)))
    scale = Fraction(lcm, g or 1)
    terms = []
    for m, c in sorted(p.items()):
        k = int(c * scale)
        fs = []
        for a, e in m:
            if e < 0:
                raise E.Unsupported('negative exponent of an atom of unknown sign')
            z = atoms[a].z
            if not allint and atoms[a].isint:
                z = z3.ToReal(z)
            fs.extend([z] * e)
        kk = z3.IntVal(k) if allint else z3.RealVal(k)
        if not fs:
            terms.append(kk)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t if k == 1 else kk * t)
    if not terms:
        return z3.IntVal(0), scale
    e = terms[0]
    for t in terms[1:]:
        e = e + t
    return e, scale


def p_cmp0(p, op):
    """Formula or bool for  p op 0 ."""
    c = p_const(p)
    if c is not None:
        return _cmpc(c, op)
    acos = _single_acos(p)
    if acos is not None:
        return _acos_cmp(p, acos, op)
    p = p_clear(p)
    c = p_const(p)
    if c is not None:
        return _cmpc(c, op)
    s = p_sign(p)
    if s is not None:
        return _cmpc(s, op)
    acos = _single_acos(p)
    if acos is not None:
        return _acos_cmp(p, acos, op)
    e, _ = p_z3(p)
    zero = 0
    if op == '<':
        f = e < zero
    elif op == '<=':
        f = e <= zero
    elif op == '>':
        f = e > zero
    elif op == '>=':
        f = e >= zero
    elif op == '==':
        f = e == zero
    else:
        f = e != zero
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return f


def _cmpc(c, op):
    return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]


def _single_acos(p):
    """(atom, c1, c0) when p == c1*theta + c0 (or its Laurent multiple) with theta an acos atom."""
    atoms = E.cur().atoms
    th = None
    for m in p:
        for a, e in m:
            r = atoms[a].rule
            if r is not None and r[0] == 'acos':
                if th is not None and th != a:
                    return None
                th = a
            else:
                return None
    if th is None:
        return None
    q = p
    lo = min(dict(m).get(th, 0) for m in p)
    if lo:
        q = {m_mul(m, ((th, -lo),)): c for m, c in p.items()}
    c1 = q.get(((th, 1),), ZERO)
    c0 = q.get((), ZERO)
    if len(q) != (1 if c1 else 0) + (1 if c0 else 0):
        return None
    return (th, c1, c0)


def _acos_cmp(p, info, op):
    th, c1, c0 = info
    if not c1:
        return _cmpc(c0, op)
    # theta op' -c0/c1
    b = -c0 / c1
    if c1 < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    x = E.cur().atoms[th].rule[1]
    if b < 0:
        return _cmpc(1, op)
    if b > frac(_math.pi):
        return _cmpc(-1, op)
    if b == 0:
        cb = ONE
    else:
        cb = frac(_math.cos(float(b)))
    # theta < b  <=>  x > cos b
    op2 = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    return p_cmp0(p_add(x, {(): cb} if cb else {}, -1), op2)


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('f', 'eq')

    def __init__(self, f, eq=None):
        self.f = f
        self.eq = eq        # (polynomial, True) if this says it is zero, (polynomial, False) if it says it is not

    def __bool__(self):
        r = E.cur().branch(self.f)
        if self.eq is not None and r is self.eq[1]:
            learn_zero(self.eq[0])
        return r

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_not(b_iff(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_iff(self, o)
        return bool(self) == o

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % (self.f,)


def mkb(f):
    if isinstance(f, (bool, SymBool)):
        return f
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f)


def b_f(b):
    return b.f if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def learn_zero(p):
    """On this path the polynomial is zero: remember what that makes of one of its inputs (see p_subst)."""
    eng = E.cur()
    p = p_subst(p)
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and eng.atoms[m[0][0]].rule is None:
            a = m[0][0]
            if not any(x == a for k in p if k != m for x, e in k):
                best = (a, m, c)
    if best is None:
        return
    a, m, c = best
    rest = {k: -v / c for k, v in p.items() if k != m}
    for x in list(eng.subst):
        eng.subst[x] = _subst1(eng.subst[x], a, rest)
    eng.subst[a] = rest


def _subst1(p, a, q):
    if not any(x == a for m in p for x, e in m):
        return p
    out = {}
    for m, c in p.items():
        t = {tuple(y for y in m if y[0] != a): c}
        for x, e in m:
            if x == a:
                if e < 0:
                    return p
                for _ in range(e):
                    t = p_mul(t, q)
        out = p_add(out, t)
    return out


def p_subst(p):
    """The polynomial with inputs replaced by what equations decided on this path make of them."""
    for a, q in E.cur().subst.items():
        p = _subst1(p, a, q)
    return p


def b_not(b):
    if isinstance(b, SymBool):
        return mkb(z3.Not(b.f))
    return not b


def b_and(*bs):
    fs = []
    for b in bs:
        if isinstance(b, SymBool):
            fs.append(b.f)
        elif not b:
            return False
    if not fs:
        return True
    return mkb(fs[0] if len(fs) == 1 else z3.And(fs))


def b_or(*bs):
    fs = []
    for b in bs:
        if isinstance(b, SymBool):
            fs.append(b.f)
        elif b:
            return True
    if not fs:
        return False
    return mkb(fs[0] if len(fs) == 1 else z3.Or(fs))


def b_iff(a, b):
    if not isinstance(a, SymBool):
        a, b = b, a
    if not isinstance(a, SymBool):
        return bool(a) == bool(b)
    if not isinstance(b, SymBool):
        return a if b else b_not(a)
    return mkb(a.f == b.f)


# ---------------------------------------------------------------- numbers
class Num(object):
    __slots__ = ('p', 'isint')

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if type(x) is bool:
            x = int(x)
        if isinstance(x, SymBool):
            x = int(bool(x))
        if isinstance(x, (int, float, Fraction)):
            f = frac(x)
            return Num({(): f} if f else {}, isinstance(x, int))
        return None

    def const(self):
        return p_const(self.p)

    def native(self):
        c = p_const(self.p)
        if c is None:
            return None
        if self.isint:
            return int(c)
        return float(c)

    # -- arithmetic
    def _bin(self, o, f):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return Num(p_add(self.p, o.p), self.isint and o.isint)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return Num(p_add(self.p, o.p, -1), self.isint and o.isint)

    def __rsub__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return Num(p_add(o.p, self.p, -1), self.isint and o.isint)

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return Num(p_mul(self.p, o.p), self.isint and o.isint)

    __rmul__ = __mul__

    def __neg__(self):
        return Num(p_scale(self.p, Fraction(-1)), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.__ge__(0):
            return self
        return -self

    def __truediv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return num_div(self, o)

    def __rtruediv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return num_div(o, self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return num_floordiv(self, o)

    def __rfloordiv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return num_floordiv(o, self)

    def __mod__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return self - num_floordiv(self, o) * o

    def __rmod__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return o.__mod__(self)

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return (q, self - q * o)

    def __pow__(self, o):
        if isinstance(o, Num):
            c = o.const()
            if c is None:
                raise E.Unsupported('symbolic exponent')
            o = int(c) if c.denominator == 1 else float(c)
        if isinstance(o, float) and o == int(o):
            o = int(o)
            r = self.__pow__(o)
            return Num(r.p, False)
        if o == 0.5:
            return num_sqrt(self)
        if not isinstance(o, int):
            raise E.Unsupported('exponent %r' % o)
        r = Num({(): ONE}, self.isint)
        for _ in range(abs(o)):
            r = r * self
        if o < 0:
            return num_div(Num({(): ONE}), r)
        return r

    def __rpow__(self, o):
        return o ** self.fork('exponent')

    # -- comparison
    def _cmp(self, o, op):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        p = p_add(self.p, o.p, -1)
        r = mkb(p_cmp0(p, op))
        if op in ('==', '!=') and isinstance(r, SymBool):
            r.eq = (p, op == '==')
        return r

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    # -- conversion
    def __hash__(self):
        n = self.native()
        if n is not None:
            return hash(n)
        E.cur().sym_hash = True
        E.cur().sym_keys = True
        return 0

    def fork(self, why=''):
        c = p_const(self.p)
        if c is None:
            if any(e < 0 for m in self.p for a, e in m):
                raise E.Unsupported('enumerating a rational function')
            e, s = p_z3(self.p)
            c = E.cur().fork_value(e) / s
            # keep the value attached to this object's polynomial
        return int(c) if c.denominator == 1 and self.isint else float(c)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.fork())

    def __int__(self):
        c = p_const(self.p)
        if c is not None:
            return int(c)
        return int(num_trunc(self).fork())

    def __trunc__(self):
        return num_trunc(self)

    def __floor__(self):
        return num_floor(self)

    def __ceil__(self):
        return num_ceil(self)

    def __float__(self):
        return float(num_concretise(self, 'float() in native code'))

    def __round__(self, n=None):
        return num_round(self, n)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise E.Unsupported('pickling a symbolic number')

    def is_integer(self):
        return self == num_floor(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __format__(self, spec):
        raise E.Unsupported('native format of a symbolic number')

    def __str__(self):
        raise E.Unsupported('native str of a symbolic number')

    def __repr__(self):
        try:
            c = p_const(self.p)
            if c is not None:
                return 'Num(%s)' % float(c)
            atoms = E.cur().atoms
            return 'Num(%s)' % ' + '.join('%.6g%s' % (float(c), ''.join('*%s^%d' % (atoms[a].name, e) for a, e in m))
                                           for m, c in sorted(self.p.items()))
        except Exception:
            return 'Num(?)'


def num_concretise(x, why):
    c = p_const(x.p)
    if c is not None:
        return c
    p = x.p
    if p_key(p_clear(p)) != p_key(p):
        a = new_atom(E.cur().fresh('conc'))
        n = atom_num(a)
        E.cur().add(b_f(n == x))
        p = n.p
    e, s = p_z3(p)
    return E.cur().concretise(e, why) / s


def num_div(a, b):
    if E.cur().subst:
        a, b = Num(p_subst(a.p), a.isint), Num(p_subst(b.p), b.isint)
    c = p_const(b.p)
    if c is not None:
        if not c:
            raise ZeroDivisionError('float division by zero' if not (a.isint and b.isint) else 'division by zero')
        return Num(p_scale(a.p, 1 / c))
    if not a.p:
        if bool(b == 0):
            raise ZeroDivisionError('float division by zero')
        return Num({})
    # proportional polynomials
    if len(a.p) == len(b.p):
        r = None
        for m, c in b.p.items():
            d = a.p.get(m)
            if d is None or (r is not None and d / c != r):
                r = None
                break
            r = d / c
        if r is not None:
            if bool(b == 0):
                raise ZeroDivisionError('float division by zero')
            return Num({(): r})
    atoms = E.cur().atoms
    if len(b.p) == 1:
        (m, c), = b.p.items()
        if all(atoms[x].pos for x, e in m):
            inv = tuple((x, -e) for x, e in m)
            return Num(_reduce({m_mul(k, inv): v / c for k, v in a.p.items()}))
    s = p_sign(b.p)
    if s is None:
        if bool(b > 0):
            s = 1
        elif bool(b < 0):
            s = -1
        else:
            raise ZeroDivisionError('float division by zero')
    if s < 0:
        a, b = -a, -b
    bp = b.p
    key = ('div', p_key(a.p), p_key(b.p))
    eng = E.cur()
    hit = eng.memo.get(key)
    if hit is None:
        at = new_atom(eng.fresh('quot'), rule=('frac', a.p, b.p, True))
        sa = p_sign(a.p)
        if sa == 1:
            at.pos = True
        hit = at
        eng.memo[key] = hit
        eng.defer_def(('frac', at))
    return atom_num(hit)


def num_floordiv(a, b):
    if p_const(b.p) == 0:
        raise ZeroDivisionError('division by zero')
    q = num_div(a, b)
    r = num_floor(q)
    return Num(r.p, a.isint and b.isint)


def num_floor(x):
    c = p_const(x.p)
    if c is not None:
        return Num({(): Fraction(_math.floor(c))} if _math.floor(c) else {}, True)
    if is_integral(x):
        return Num(x.p, True)
    eng = E.cur()
    key = ('floor', p_key(x.p))
    hit = eng.memo.get(key)
    if hit is None:
        a = new_atom(eng.fresh('floor'), isint=True)
        hit = atom_num(a)
        eng.memo[key] = hit
        eng.add(b_f(b_and(hit <= x, x < hit + 1)))
    return hit


def is_integral(x):
    atoms = E.cur().atoms
    return all(c.denominator == 1 and all(atoms[a].isint and e > 0 for a, e in m) for m, c in x.p.items())


def num_ceil(x):
    if _has_acos(x.p):
        # decided by comparisons (theta against constants), bounded
        eng = E.cur()
        for n in range(0, eng.ceil_bound + 1):
            if bool(x <= n):
                return n
        eng.cut_reason = 'ceil bound'
        eng.stats.cut += 1
        raise E.PathAbort()
    return -num_floor(-x)


def _has_acos(p):
    atoms = E.cur().atoms
    return any(atoms[a].rule is not None and atoms[a].rule[0] == 'acos' for m in p for a, e in m)


def num_trunc(x):
    if bool(x >= 0):
        return num_floor(x)
    return -num_floor(-x)


def decimal_places(p, limit=12):
    """Smallest n such that p * 10**n is integral whatever the (integer) atoms are, or None."""
    atoms = E.cur().atoms
    n = 0
    for m, c in p.items():
        for a, e in m:
            if not atoms[a].isint or e < 0:
                return None
        d = c.denominator
        k = 0
        while d % 10 == 0:
            d //= 10
            k += 1
        while d % 5 == 0:
            d //= 5
            k += 1
        while d % 2 == 0:
            d //= 2
            k += 1
        if d != 1:
            return None
        while (c * 10 ** n).denominator != 1:
            n += 1
            if n > limit:
                return None
    return n


def num_round(x, n=None):
    if isinstance(n, Num):
        n = n.__index__()
    c = p_const(x.p)
    if c is not None:
        if x.isint and (n is None or n >= 0):
            return x
        r = round(c, n) if n is not None else round(c)
        return Num({(): Fraction(r)} if r else {}, n is None)
    nn = 0 if n is None else n
    dp = decimal_places(x.p)
    if dp is not None and dp <= nn:
        return Num(x.p, n is None or x.isint)
    eng = E.cur()
    key = ('round', nn, p_key(x.p))
    hit = eng.memo.get(key)
    if hit is None:
        a = new_atom(eng.fresh('round'), isint=True)
        hit = a
        eng.memo[key] = hit
        s = Num(p_scale(x.p, Fraction(10) ** nn)) - atom_num(a)
        eng.add(b_f(b_and(s <= Fraction(1, 2), s >= Fraction(-1, 2))))
    r = p_scale(atom_num(hit).p, 1 / (Fraction(10) ** nn))
    return Num(r, n is None)


def exact_sqrt(f):
    n, d = f.numerator, f.denominator
    rn, rd = _math.isqrt(n), _math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    # 30 significant digits
    k = 10 ** 60
    return Fraction(_math.isqrt(n * k // d), 10 ** 30)


def num_sqrt(x):
    x = Num.of(x)
    if E.cur().subst:
        x = Num(p_subst(x.p), x.isint)
    c = p_const(x.p)
    if c is not None:
        if c < 0:
            if c > Fraction(-1, 10 ** 14):
                return Num({})
            raise ValueError('math domain error')
        r = exact_sqrt(c)
        return Num({(): r} if r else {})
    eng = E.cur()
    atoms = eng.atoms
    p = x.p
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 2 == 0 for a, e in m):
            if c < 0:
                if c > Fraction(-1, 10 ** 14):
                    return Num({})
                if bool(x == 0):
                    return Num({})
                raise ValueError('math domain error')
            r = Num({tuple((a, e // 2) for a, e in m): exact_sqrt(c)})
            if all(atoms[a].pos for a, e in m):
                return r
            return abs(r)
    # perfect square of a linear form
    r = _poly_square_root(p)
    if r is not None:
        return abs(Num(r))
    if bool(x < 0):
        raise ValueError('math domain error')
    if bool(x == 0):
        return Num({})
    key = ('sqrt', p_key(p))
    hit = eng.memo.get(key)
    if hit is None:
        a = new_atom(eng.fresh('sqrt'), pos=True, rule=('sqrt', p))
        hit = a
        eng.memo[key] = hit
        eng.defer_def(('sqrt', a))
    return atom_num(hit)


def _poly_square_root(p):
    # p = (sum c_i m_i)^2 : try by extracting square monomials
    sq = []
    for m, c in p.items():
        if c > 0 and all(e % 2 == 0 for a, e in m):
            r = exact_sqrt(c)
            if r * r != c:
                continue
            sq.append((tuple((a, e // 2) for a, e in m), r))
    if not sq or len(sq) > 6:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=len(sq) - 1):
        q = {sq[0][0]: sq[0][1]}
        for (m, r), s in zip(sq[1:], signs):
            q = p_add(q, {m: r * s})
        if p_key(p_mul(q, q)) == p_key(p):
            return q
    return None


# ---------------------------------------------------------------- characters
FULL = (1 << 128) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


DIGITS = mask_of('0123456789')
SPACE = mask_of(' \t\n\r\f\v') | mask_of([0x1c, 0x1d, 0x1e, 0x1f])
LOWER = mask_of('abcdefghijklmnopqrstuvwxyz')
UPPER = mask_of('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
WORD = DIGITS | LOWER | UPPER | mask_of('_')
RE_SPACE = mask_of(' \t\n\r\f\v') | mask_of([0x1c, 0x1d, 0x1e, 0x1f])


def bits(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


def ranges(m):
    out = []
    for b in bits(m):
        if out and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b])
    return out


def mask_formula(t, m):
    fs = []
    for lo, hi in ranges(m):
        if lo == hi:
            fs.append(t == lo)
        else:
            fs.append(z3.And(t >= lo, t <= hi))
    return z3.Or(fs) if len(fs) != 1 else fs[0]


class SymChar(object):
    __slots__ = ('name', 'z', 'mask', 'linked', 'off', 'base')

    def __init__(self, name, mask, term=None):
        self.name = name
        self.z = term if term is not None else z3.Int(name)
        self.mask = mask
        self.linked = term is not None

    def link(self):
        if not self.linked:
            self.linked = True
            E.cur().add(mask_formula(self.z, self.mask))

    def test(self, s):
        m = self.mask & s
        if not m:
            return False
        if m == self.mask:
            return True
        eng = E.cur()
        if self.linked:
            d = eng.branch(mask_formula(self.z, m))
        else:
            d = eng.choose(2) == 0
        self.mask = m if d else self.mask & ~s
        return d

    def code(self):
        """Concrete code by forking over all possibilities."""
        bs = bits(self.mask)
        if len(bs) == 1:
            return bs[0]
        eng = E.cur()
        if self.linked:
            v = int(eng.fork_value(self.z))
            self.mask = 1 << v
            return v
        i = eng.choose(len(bs))
        self.mask = 1 << bs[i]
        return bs[i]

    def digit(self):
        """Value of a digit character as Num."""
        bs = bits(self.mask)
        if len(bs) == 1:
            return bs[0] - 48
        self.link()
        return atom_num(atom_for_term(self.z)) - 48


def c_test(c, s):
    if type(c) is str:
        o = ord(c)
        if o >= 128:
            return s == SPACE and c.isspace()
        return bool(s >> o & 1)
    return c.test(s)


def c_eq(a, b):
    if a is b:
        return True
    if type(a) is str and type(b) is str:
        return a == b
    if type(a) is str:
        a, b = b, a
    if type(b) is str:
        o = ord(b)
        if o >= 128:
            return False
        return a.test(1 << o)
    m = a.mask & b.mask
    if not m:
        return False
    if len(bits(a.mask)) == 1 and a.mask == b.mask:
        return True
    a.link()
    b.link()
    d = E.cur().branch(a.z == b.z)
    if d:
        a.mask = m
        b.mask = m
    return d


def c_native(c):
    if type(c) is str:
        return c
    return chr(c.code())


def c_upper(c):
    if type(c) is str:
        return c.upper()
    if c.test(LOWER):
        if len(bits(c.mask)) == 1:
            return chr(bits(c.mask)[0]).upper()
        c.link()
        n = SymChar(c.name + '^', c.mask >> 32, term=c.z - 32)
        return n
    return c


def c_lower(c):
    if type(c) is str:
        return c.lower()
    if c.test(UPPER):
        if len(bits(c.mask)) == 1:
            return chr(bits(c.mask)[0]).lower()
        c.link()
        return SymChar(c.name + '_', c.mask << 32, term=c.z + 32)
    return c


class NumSeg(object):
    """A formatted number that has not been written out yet."""
    __slots__ = ('num', 'spec', 'chars')

    def __init__(self, num, spec):
        self.num = num
        self.spec = spec
        self.chars = None

    def expand(self):
        if self.chars is None:
            from . import fmt
            self.chars = fmt.expand(self.num, self.spec)
        return self.chars

    def same(self, o):
        return self.spec == o.spec and p_key(self.num.p) == p_key(o.num.p)


NUMSEG_ALPHABET = DIGITS | mask_of('.+-e')


def mkstr(items):
    out = []
    native = True
    for it in items:
        if type(it) is str:
            if len(it) == 1:
                out.append(it)
            else:
                out.extend(it)
        else:
            native = False
            out.append(it)
    if native:
        return ''.join(out)
    return SymStr(out)


def items_of(s):
    """Item list of a native or symbolic string."""
    if type(s) is str:
        return list(s)
    if isinstance(s, SymStr):
        return s.items
    if isinstance(s, str):
        return list(s)
    raise TypeError('expected str, got %s' % type(s).__name__)


class SymStr(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    # -- characters
    def chars(self):
        if any(type(i) is NumSeg for i in self.items):
            out = []
            for it in self.items:
                if type(it) is NumSeg:
                    out.extend(it.expand())
                else:
                    out.append(it)
            self.items = out
        return self.items

    def native(self):
        """Native str, forking over every possibility."""
        return ''.join(c_native(c) for c in self.chars())

    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        for it in self.items:
            return True
        return False

    def __getitem__(self, i):
        cs = self.chars()
        if isinstance(i, slice):
            return mkstr(cs[i])
        return mkstr([cs[i]])

    def __iter__(self):
        for c in list(self.chars()):
            yield mkstr([c])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(self.items + items_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(items_of(o) + self.items)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.items * (n.__index__()))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    # -- comparison
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return s_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self.native() < to_native_str(o)

    def __gt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self.native() > to_native_str(o)

    def __le__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self.native() <= to_native_str(o)

    def __ge__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self.native() >= to_native_str(o)

    def __hash__(self):
        return hash(self.native())

    def __contains__(self, sub):
        return s_find(self, sub) >= 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self.native()

    def __repr__(self):
        out = []
        for it in self.items:
            if type(it) is str:
                out.append(it)
            elif type(it) is NumSeg:
                out.append('<%s>' % it.spec)
            else:
                out.append('?')
        return 'SymStr(%s)' % ''.join(out)

    def __format__(self, spec):
        raise E.Unsupported('native format of a symbolic string')

    def __getattr__(self, name):
        from . import fmt
        f = fmt.STR_METHODS.get(name)
        if f is None:
            if hasattr(str, name):
                raise E.Unsupported('str.%s on a symbolic string' % name)
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return lambda *a, **k: f(self, *a, **k)


def to_native_str(s):
    return s if isinstance(s, str) else s.native()


def s_eq(a, b):
    ia, ib = items_of(a), items_of(b)
    if len(ia) == len(ib):
        ok = True
        for x, y in zip(ia, ib):
            if x is y:
                continue
            if type(x) is str and type(y) is str and x == y:
                continue
            if type(x) is NumSeg and type(y) is NumSeg and x.same(y):
                continue
            ok = False
            break
        if ok:
            return True
    ca = a.chars() if isinstance(a, SymStr) else list(a)
    cb = b.chars() if isinstance(b, SymStr) else list(b)
    if len(ca) != len(cb):
        return False
    # cheap definite mismatch first
    for x, y in zip(ca, cb):
        if type(x) is str and type(y) is str and x != y:
            return False
    for x, y in zip(ca, cb):
        if not c_eq(x, y):
            return False
    return True


def s_find(s, sub, start=0, end=None):
    cs = s.chars() if isinstance(s, SymStr) else list(s)
    ss = sub.chars() if isinstance(sub, SymStr) else list(sub)
    n = len(cs) if end is None else min(end, len(cs))
    for i in range(start, n - len(ss) + 1):
        if all(c_eq(cs[i + j], ss[j]) for j in range(len(ss))):
            return i
    return -1


def is_sym(x):
    return isinstance(x, (Num, SymStr, SymBool))
