"""Text <-> number conversions and string methods for symbolic values."""
import re as _re
import string as _string
from fractions import Fraction

from . import engine as E
from . import values as V
from .values import Num, SymStr, SymChar, SymBool, NumSeg, mkstr, items_of, p_const, c_test, DIGITS, SPACE

SPEC = _re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<comma>[,_])?'
                   r'(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$')


FIXED = _re.compile(r'^\.0*[1-9]\d*f$')  # always written with a decimal point


# ---------------------------------------------------------------- numbers -> text
def digits_of(m, n):
    """n decimal digit characters (most significant first) of the Num m, 0 <= m < 10**n."""
    if n == 0:
        return []
    c = p_const(m.p)
    if c is not None:
        return list(str(int(c)).rjust(n, '0'))
    eng = E.cur()
    out = []
    tot = Num({}, True)
    for i in range(n):
        t = V.z3.Int(eng.fresh('dig'))
        ch = SymChar('dig', DIGITS, term=t)
        eng.add(V.z3.And(t >= 48, t <= 57))
        out.append(ch)
        tot = tot + (V.atom_num(V.atom_for_term(t)) - 48) * (10 ** (n - 1 - i))
    eng.add(V.b_f(tot == m))
    return out


def count_digits(m, limit=18):
    """Number of digits of m >= 0 (1 for zero), forking."""
    c = p_const(m.p)
    if c is not None:
        return len(str(int(c)))
    for n in range(1, limit + 1):
        if bool(m < 10 ** n):
            return n
    raise E.Unsupported('number too long to format')


def rounded(av, places):
    """Integer Num nearest av * 10**places (av >= 0)."""
    s = Num(V.p_scale(av.p, Fraction(10) ** places), False)
    r = V.num_round(s, None)
    return Num(r.p, True)


def split_sign(num):
    """(negative?, absolute value)"""
    if bool(num < 0):
        return True, -num
    return False, num


def fixed_chars(m, places):
    """Characters of m / 10**places with exactly `places` decimals."""
    n = count_digits(m)
    n = max(n, places + 1)
    ds = digits_of(m, n)
    if places:
        return ds[:n - places] + ['.'] + ds[n - places:]
    return ds


def strip_zeros(ds):
    """Drop trailing '0's and then a trailing '.' of a character list holding a '.'."""
    ds = list(ds)
    while ds and ds[-1] != '.' and c_test(ds[-1], 1 << 48):
        ds.pop()
    if ds and ds[-1] == '.':
        ds.pop()
    return ds


def expand(num, spec):
    """Character list for a Num under a format spec."""
    if spec.startswith('~'):
        cs = expand(num, spec.lstrip('~'))
        while cs and c_test(cs[-1], 1 << 48):
            cs.pop()
        if spec.startswith('~~') and cs and cs[-1] == '.':
            cs.pop()
        return cs
    n = num.native()
    if n is not None:
        if spec == 'r':
            return list(repr(n))
        return list(format(n, spec))
    if spec == 'r':
        return expand_repr(num)
    mt = SPEC.match(spec)
    if not mt:
        raise ValueError("Invalid format specifier")
    typ = mt.group('type')
    prec = mt.group('prec')
    if mt.group('alt') or mt.group('comma'):
        raise E.Unsupported('format spec %r' % spec)
    if typ is None and prec is None:
        body = expand_repr(num)
        neg = body and body[0] == '-'
        if neg:
            body = body[1:]
    elif typ == 'd' or (typ == 'n' and num.isint):
        if not num.isint:
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        neg, a = split_sign(num)
        body = digits_of(a, count_digits(a))
    elif typ in ('f', 'F'):
        neg, a = split_sign(num)
        p = 6 if prec is None else int(prec)
        body = fixed_chars(rounded(a, p), p)
    elif typ in ('g', 'G') or typ is None:
        neg, a = split_sign(num)
        body = general(a, 6 if prec is None else int(prec))
    else:
        raise E.Unsupported('format type %r' % typ)
    sign = '-' if neg else {'+': '+', ' ': ' '}.get(mt.group('sign'), '')
    width = int(mt.group('width') or 0)
    if width > len(body) + len(sign):
        pad = width - len(body) - len(sign)
        fill = mt.group('fill') or ('0' if mt.group('zero') else ' ')
        align = mt.group('align') or ('=' if mt.group('zero') else '>')
        if align == '=':
            return list(sign) + [fill] * pad + body
        if align == '>':
            return [fill] * pad + list(sign) + body
        if align == '<':
            return list(sign) + body + [fill] * pad
        return [fill] * (pad // 2) + list(sign) + body + [fill] * (pad - pad // 2)
    return list(sign) + body


def general(a, prec):
    """'g' formatting of a >= 0 with prec significant digits."""
    prec = max(1, prec)
    if bool(a == 0):
        return ['0']
    # exponent
    dp = V.decimal_places(a.p)
    e = None
    lo = -(dp if dp is not None else 9)
    for k in range(lo, 19):
        # 10**k <= rounded < 10**(k+1)
        if bool(a < Fraction(10) ** (k + 1)):
            e = k
            break
    if e is None:
        raise E.Unsupported('number too large to format')
    m = rounded(a, prec - 1 - e)
    if bool(m >= 10 ** prec):
        e += 1
        m = rounded(a, prec - 1 - e)
    if -4 <= e < prec:
        places = prec - 1 - e
        # avoid trailing positions that are certainly zero
        if dp is not None and dp < places:
            m = Num(V.p_scale(a.p, Fraction(10) ** dp), True)
            places = dp
        if places <= 0:
            return digits_of(m, count_digits(m))
        return strip_zeros(fixed_chars(m, places))
    ds = digits_of(m, prec)
    mant = [ds[0]] + (['.'] + ds[1:] if prec > 1 else [])
    if prec > 1:
        mant = strip_zeros(mant)
    return mant + list('e%s%02d' % ('-' if e < 0 else '+', abs(e)))


def expand_repr(num):
    """str()/repr() of an int or float."""
    if num.isint:
        neg, a = split_sign(num)
        return (['-'] if neg else []) + digits_of(a, count_digits(a))
    dp = V.decimal_places(num.p)
    if dp is None or dp > 12:
        c = V.num_concretise(num, 'repr of a float')
        return list(repr(float(c)))
    neg, a = split_sign(num)
    if not bool(a < 10 ** 15):
        raise E.Unsupported('repr of a large float')
    if dp > 4 and bool(a < Fraction(1, 10000)) and not bool(a == 0):
        raise E.Unsupported('repr of a small float')
    if dp == 0:
        body = digits_of(Num(a.p, True), count_digits(a)) + ['.', '0']
    else:
        body = fixed_chars(Num(V.p_scale(a.p, Fraction(10) ** dp), True), dp)
        while len(body) > 2 and body[-2] != '.' and c_test(body[-1], 1 << 48):
            body.pop()
    return (['-'] if neg else []) + body


def seg(num, spec):
    n = num.native()
    if n is not None:
        return repr(n) if spec == 'r' else format(n, spec)
    return SymStr([NumSeg(num, spec)])


# ---------------------------------------------------------------- text -> numbers
def to_float(x=0.0):
    if isinstance(x, Num):
        return Num(x.p, False) if x.isint else x
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, SymStr):
        if len(x.items) == 1 and type(x.items[0]) is NumSeg and x.items[0].spec == 'r':
            return Num(x.items[0].num.p, False)
        return parse_number(x, False)
    f = getattr(type(x), '__float__', None)
    if f is not None and not isinstance(x, (int, float, str)):
        return f(x)
    return float(x)


def to_int(x=0, base=None):
    if isinstance(x, Num):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        if x.isint:
            return x
        return V.num_trunc(x)
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymStr):
        if base not in (None, 10):
            raise E.Unsupported('int base')
        return parse_number(x, True)
    return int(x) if base is None else int(x, base)


def parse_number(s, isint):
    err = ValueError('could not convert string to %s' % ('int' if isint else 'float'))
    cs = list(s.chars())
    while cs and c_test(cs[0], SPACE):
        cs.pop(0)
    while cs and c_test(cs[-1], SPACE):
        cs.pop()
    neg = False
    if cs and c_test(cs[0], V.mask_of('+-')):
        neg = c_test(cs[0], V.mask_of('-'))
        cs.pop(0)
    if not cs:
        raise err
    whole, fr, expo = [], [], None
    i = 0
    while i < len(cs) and c_test(cs[i], DIGITS):
        whole.append(cs[i])
        i += 1
    if not isint and i < len(cs) and c_test(cs[i], V.mask_of('.')):
        i += 1
        while i < len(cs) and c_test(cs[i], DIGITS):
            fr.append(cs[i])
            i += 1
    if not whole and not fr:
        if any(type(c) is not str for c in cs) or isint:
            raise err
        return float(''.join(cs))
    ex = 0
    if not isint and i < len(cs) and c_test(cs[i], V.mask_of('eE')):
        i += 1
        es = 1
        if i < len(cs) and c_test(cs[i], V.mask_of('+-')):
            es = -1 if c_test(cs[i], V.mask_of('-')) else 1
            i += 1
        ed = ''
        while i < len(cs) and c_test(cs[i], DIGITS):
            ed += V.c_native(cs[i])
            i += 1
        if not ed:
            raise err
        ex = es * int(ed)
    if i < len(cs):
        if c_test(cs[i], V.mask_of('_')):
            raise E.Unsupported('underscore in a number')
        raise err
    tot = Num({}, True)
    for c in whole + fr:
        d = int(c) if type(c) is str else c.digit()
        tot = tot * 10 + d
    sc = Fraction(10) ** (ex - len(fr))
    if neg:
        sc = -sc
    r = Num(V.p_scale(tot.p, sc), isint)
    n = r.native()
    return r if n is None else n


# ---------------------------------------------------------------- str() and repr()
def sx_str(x=''):
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, Num):
        return seg(x, 'r')
    if isinstance(x, SymBool):
        return str(bool(x))
    t = type(x)
    f = t.__str__
    if f is object.__str__ or f in _NATIVE_STR:
        return sx_repr(x)
    if isinstance(x, BaseException) and f in _EXC_STR:
        if len(x.args) == 1:
            return sx_str(x.args[0])
        if not x.args:
            return ''
        return sx_repr(x.args)
    return f(x)


_NATIVE_STR = set([list.__str__, dict.__str__, tuple.__str__, set.__str__])
_EXC_STR = set([Exception.__str__, BaseException.__str__])


def sx_repr(x):
    if isinstance(x, Num):
        return seg(x, 'r')
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymStr):
        return mkstr(["'"] + x.items + ["'"])
    t = type(x)
    if t in (list, tuple, set, frozenset) or (isinstance(x, (list, tuple)) and t.__repr__ in (list.__repr__, tuple.__repr__)):
        seq = list(x)
        if t is set and not seq:
            return 'set()'
        o, c = {'list': '[]', 'tuple': '()'}.get(t.__name__, '{}')
        out = []
        for i, e in enumerate(seq):
            if i:
                out.extend(', ')
            out.extend(items_of(sx_repr(e)))
        if t is tuple and len(seq) == 1:
            out.append(',')
        r = mkstr([o] + out + [c])
        return mkstr(list('frozenset(') + items_of(r) + [')']) if t is frozenset else r
    if isinstance(x, dict):
        out = []
        for i, (k, v) in enumerate(x.items()):
            if i:
                out.extend(', ')
            out.extend(items_of(sx_repr(k)))
            out.extend(': ')
            out.extend(items_of(sx_repr(v)))
        r = ['{'] + out + ['}']
        if t.__repr__ is not dict.__repr__:
            r = list(t.__name__ + '(') + r + [')']
        return mkstr(r)
    if isinstance(x, BaseException):
        return mkstr(list(t.__name__) + items_of(sx_repr(tuple(x.args))))
    return t.__repr__(x)


# ---------------------------------------------------------------- formatting entry points
def sx_format(x, spec=''):
    if isinstance(spec, SymStr):
        spec = spec.native()
    if isinstance(x, Num):
        if not spec:
            return seg(x, 'r')
        return seg(x, spec)
    if isinstance(x, (SymStr, str)):
        if not spec:
            return x
        return pad_str(x, spec)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    t = type(x)
    if t.__format__ is object.__format__:
        if spec:
            raise TypeError('unsupported format string passed to %s.__format__' % t.__name__)
        return sx_str(x)
    if isinstance(x, (list, dict, tuple, set)):
        return sx_str(x)
    return t.__format__(x, spec)


def pad_str(s, spec):
    if type(s) is str:
        return format(s, spec)
    mt = SPEC.match(spec)
    if not mt or mt.group('type') not in (None, 's'):
        raise ValueError('Invalid format specifier')
    it = list(s.chars())
    if mt.group('prec') is not None:
        it = it[:int(mt.group('prec'))]
    w = int(mt.group('width') or 0)
    pad = max(0, w - len(it))
    fill = mt.group('fill') or ' '
    al = mt.group('align') or '<'
    if al == '<':
        it = it + [fill] * pad
    elif al == '>':
        it = [fill] * pad + it
    else:
        it = [fill] * (pad // 2) + it + [fill] * (pad - pad // 2)
    return mkstr(it)


def m_format(s, *args, **kw):
    return _format(s, args, kw, [0])


def _format(s, args, kw, auto):
    if isinstance(s, SymStr):
        s = s.native()
    out = []

    def field(name):
        first, rest = _string._string.formatter_field_name_split(name)
        if first == '':
            first = auto[0]
            auto[0] += 1
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else obj[i]
        return obj

    for lit, name, spec, conv in _string.Formatter().parse(s):
        out.extend(lit)
        if name is None:
            continue
        obj = field(name)
        if conv == 'r':
            obj = sx_repr(obj)
        elif conv == 's':
            obj = sx_str(obj)
        if spec and '{' in spec:
            spec = V.to_native_str(_format(spec, args, kw, auto))
        out.extend(items_of(sx_format(obj, spec)))
    return mkstr(out)


PERCENT = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>[diouxXeEfFgGcrsa%])')


def percent(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = fmt.native()
    out = []
    pos = 0
    mapping = isinstance(args, dict)
    seq = list(args) if isinstance(args, tuple) else [args]
    k = 0
    for mt in PERCENT.finditer(fmt):
        lit = fmt[pos:mt.start()]
        if '%' in lit:
            raise ValueError('unsupported format character')
        out.extend(lit)
        pos = mt.end()
        typ = mt.group('type')
        if typ == '%':
            out.append('%')
            continue
        width, prec = mt.group('width'), mt.group('prec')
        if width == '*':
            width = str(int(seq[k]))
            k += 1
        if prec == '*':
            prec = str(int(seq[k]))
            k += 1
        if mt.group('key') is not None:
            v = args[mt.group('key')]
        else:
            if k >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[k]
            k += 1
        fl = mt.group('flags')
        if typ in 'sra':
            t = sx_str(v) if typ == 's' else sx_repr(v)
            spec = ''
            if width or prec:
                spec = ('<' if '-' in fl else '>') + (width or '') + ('.' + prec if prec else '')
            out.extend(items_of(pad_str(t, spec) if spec else t))
        elif isinstance(v, (Num, SymBool)):
            v = Num.of(v)
            if typ in 'di':
                if not v.isint:
                    v = V.num_trunc(v)
                v = Num.of(v)
                typ = 'd'
            spec = ('<' if '-' in fl and width else '') + ('+' if '+' in fl else (' ' if ' ' in fl else '')) + ('0' if '0' in fl and width else '') + (width or '') + ('.' + prec if prec and typ != 'd' else '') + typ
            out.extend(items_of(seg(v, spec)))
        else:
            if typ in 'di' and isinstance(v, float):
                v = int(v)
            nat = mt.group(0)
            nat = _re.sub(r'\([^)]*\)', '', nat).replace('*', '')
            nat = '%' + fl + (width or '') + ('.' + prec if prec else '') + typ
            out.extend(nat % (v,))
    lit = fmt[pos:]
    if '%' in lit:
        raise ValueError('incomplete format')
    out.extend(lit)
    if not mapping and k < len(seq) and isinstance(args, tuple):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


# ---------------------------------------------------------------- string methods (subject may be native)
def _chars(s):
    return s.chars() if isinstance(s, SymStr) else list(s)


def m_join(s, it):
    out = []
    for i, x in enumerate(it):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if i:
            out.extend(items_of(s))
        out.extend(items_of(x))
    return mkstr(out)


def m_upper(s):
    return mkstr([V.c_upper(c) for c in _chars(s)])


def m_lower(s):
    return mkstr([V.c_lower(c) for c in _chars(s)])


def _strip_set(chars):
    if chars is None:
        return SPACE
    return V.mask_of(V.to_native_str(chars))


def m_lstrip(s, chars=None):
    m = _strip_set(chars)
    cs = list(_chars(s))
    i = 0
    while i < len(cs) and c_test(cs[i], m):
        i += 1
    return mkstr(cs[i:])


def m_rstrip(s, chars=None):
    m = _strip_set(chars)
    # do not write a formatted number out when only its neighbourhood matters
    if isinstance(s, SymStr) and s.items and type(s.items[-1]) is NumSeg:
        sp = s.items[-1].spec
        if FIXED.match(sp) and m == 1 << 48:  # '1.230'.rstrip('0')
            return SymStr(s.items[:-1] + [NumSeg(s.items[-1].num, '~' + sp)])
        if sp.startswith('~') and not sp.startswith('~~') and m == 1 << 46:  # '1.'.rstrip('.')
            return SymStr(s.items[:-1] + [NumSeg(s.items[-1].num, '~' + sp)])
    if isinstance(s, SymStr) and s.items and type(s.items[-1]) is NumSeg and not (m & V.NUMSEG_ALPHABET):
        return s
    if isinstance(s, SymStr) and s.items and type(s.items[-1]) is str and not c_test(s.items[-1], m):
        return s
    cs = list(_chars(s))
    n = len(cs)
    while n and c_test(cs[n - 1], m):
        n -= 1
    return mkstr(cs[:n])


def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars) if True else None


def m_startswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return any(m_startswith(s, q, start, end) for q in p)
    cs = _chars(s)[start:end]
    ps = _chars(p)
    return len(ps) <= len(cs) and all(V.c_eq(a, b) for a, b in zip(cs, ps))


def m_endswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return any(m_endswith(s, q, start, end) for q in p)
    cs = _chars(s)[start:end]
    ps = _chars(p)
    if len(ps) > len(cs):
        return False
    return all(V.c_eq(a, b) for a, b in zip(cs[len(cs) - len(ps):], ps))


def m_find(s, sub, start=0, end=None):
    return V.s_find(s, sub, start, end)


def m_index(s, sub, start=0, end=None):
    r = V.s_find(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_rfind(s, sub, start=0, end=None):
    cs, ss = _chars(s), _chars(sub)
    start, end, _ = slice(start, end).indices(len(cs))
    if (start, end) != (0, len(cs)):
        r = m_rfind(mkstr(cs[start:end]), sub)
        return r if r < 0 else r + start
    for i in range(len(cs) - len(ss), -1, -1):
        if all(V.c_eq(cs[i + j], ss[j]) for j in range(len(ss))):
            return i
    return -1


def m_rindex(s, sub, start=0, end=None):
    r = m_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_removeprefix(s, p):
    return mkstr(list(_chars(s))[len(_chars(p)):]) if m_startswith(s, p) else s


def m_removesuffix(s, p):
    n = len(_chars(p))
    return mkstr(list(_chars(s))[:-n]) if n and m_endswith(s, p) else s


def m_center(s, w, fill=' '):
    cs = list(_chars(s))
    pad = max(0, w - len(cs))
    left = pad // 2 + (pad & w & 1)
    return mkstr([fill] * left + cs + [fill] * (pad - left))


def m_format_map(s, mapping):
    return _format(s, (), mapping, [0])


def m_count(s, sub, start=0, end=None):
    cs, ss = _chars(s)[start:end], _chars(sub)
    n = i = 0
    while i <= len(cs) - len(ss):
        if all(V.c_eq(cs[i + j], ss[j]) for j in range(len(ss))):
            n += 1
            i += max(1, len(ss))
        else:
            i += 1
    return n


def m_replace(s, old, new, count=-1):
    cs, ss = _chars(s), _chars(old)
    if not ss:
        raise E.Unsupported('replace of empty text')
    out = []
    i = 0
    while i < len(cs):
        if count != 0 and i <= len(cs) - len(ss) and all(V.c_eq(cs[i + j], ss[j]) for j in range(len(ss))):
            out.extend(items_of(new))
            i += len(ss)
            count -= 1
        else:
            out.append(cs[i])
            i += 1
    return mkstr(out)


def m_split(s, sep=None, maxsplit=-1):
    cs = list(_chars(s))
    if sep is None:
        out = []
        i = 0
        while True:
            while i < len(cs) and c_test(cs[i], SPACE):
                i += 1
            if i >= len(cs):
                return out
            if maxsplit == 0:
                out.append(m_rstrip(mkstr(cs[i:])))
                return out
            j = i
            while j < len(cs) and not c_test(cs[j], SPACE):
                j += 1
            out.append(mkstr(cs[i:j]))
            maxsplit -= 1
            i = j
    ss = _chars(sep)
    out = []
    cur = []
    i = 0
    while i < len(cs):
        if maxsplit != 0 and i <= len(cs) - len(ss) and all(V.c_eq(cs[i + j], ss[j]) for j in range(len(ss))):
            out.append(mkstr(cur))
            cur = []
            i += len(ss)
            maxsplit -= 1
        else:
            cur.append(cs[i])
            i += 1
    out.append(mkstr(cur))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit == -1:
        return m_split(s, sep)
    cs, ss = list(_chars(s)), _chars(sep) if sep is not None else None
    if ss is None:
        raise E.Unsupported('rsplit')
    out = []
    end = len(cs)
    i = end - len(ss)
    while i >= 0 and maxsplit:
        if all(V.c_eq(cs[i + j], ss[j]) for j in range(len(ss))) and i + len(ss) <= end:
            out.insert(0, mkstr(cs[i + len(ss):end]))
            end = i
            maxsplit -= 1
            i -= len(ss)
        else:
            i -= 1
    out.insert(0, mkstr(cs[:end]))
    return out


def m_partition(s, sep):
    i = V.s_find(s, sep)
    cs = _chars(s)
    n = len(_chars(sep))
    if i < 0:
        return (mkstr(list(cs)), '', '')
    return (mkstr(cs[:i]), mkstr(cs[i:i + n]), mkstr(cs[i + n:]))


def m_rpartition(s, sep):
    i = m_rfind(s, sep)
    cs = _chars(s)
    n = len(_chars(sep))
    if i < 0:
        return ('', '', mkstr(list(cs)))
    return (mkstr(cs[:i]), mkstr(cs[i:i + n]), mkstr(cs[i + n:]))


def _all(mask):
    def f(s):
        cs = _chars(s)
        return bool(cs) and all(c_test(c, mask) for c in cs)
    return f


def m_splitlines(s, keepends=False):
    cs = _chars(s)
    out, cur = [], []
    for c in cs:
        if c_test(c, V.mask_of('\n')):
            if keepends:
                cur.append('\n')
            out.append(mkstr(cur))
            cur = []
        else:
            cur.append(c)
    if cur:
        out.append(mkstr(cur))
    return out


def m_ljust(s, w, fill=' '):
    cs = list(_chars(s))
    return mkstr(cs + [fill] * max(0, w - len(cs)))


def m_rjust(s, w, fill=' '):
    cs = list(_chars(s))
    return mkstr([fill] * max(0, w - len(cs)) + cs)


def m_zfill(s, w):
    cs = list(_chars(s))
    pad = ['0'] * max(0, w - len(cs))
    if cs and c_test(cs[0], V.mask_of('+-')):
        return mkstr([cs[0]] + pad + cs[1:])
    return mkstr(pad + cs)


def m_title(s):
    raise E.Unsupported('str.title')


def m_capitalize(s):
    cs = _chars(s)
    return mkstr([V.c_upper(c) for c in cs[:1]] + [V.c_lower(c) for c in cs[1:]])


def m_swapcase(s):
    raise E.Unsupported('str.swapcase')


def m_translate(s, table):
    return m_translate_n(s, table)


def m_translate_n(s, table):
    out = []
    for c in _chars(s):
        n = V.c_native(c)
        out.extend(n.translate(table))
    return mkstr(out)


def m_encode(s, *a):
    return (s.native() if isinstance(s, SymStr) else s).encode(*a)


def m_isupper(s):
    cs = _chars(s)
    return any(c_test(c, V.UPPER) for c in cs) and not any(c_test(c, V.LOWER) for c in cs)


def m_islower(s):
    cs = _chars(s)
    return any(c_test(c, V.LOWER) for c in cs) and not any(c_test(c, V.UPPER) for c in cs)


STR_METHODS = {
    'format': m_format, 'join': m_join, 'upper': m_upper, 'lower': m_lower, 'casefold': m_lower,
    'strip': m_strip, 'lstrip': m_lstrip, 'rstrip': m_rstrip, 'startswith': m_startswith,
    'endswith': m_endswith, 'find': m_find, 'index': m_index, 'rfind': m_rfind, 'count': m_count,
    'replace': m_replace, 'split': m_split, 'rsplit': m_rsplit, 'partition': m_partition,
    'rpartition': m_rpartition, 'isdigit': _all(DIGITS), 'isdecimal': _all(DIGITS), 'isnumeric': _all(DIGITS),
    'isalpha': _all(V.LOWER | V.UPPER), 'isalnum': _all(V.LOWER | V.UPPER | DIGITS), 'isspace': _all(SPACE),
    'splitlines': m_splitlines, 'ljust': m_ljust, 'rjust': m_rjust, 'zfill': m_zfill, 'title': m_title,
    'capitalize': m_capitalize, 'swapcase': m_swapcase, 'translate': m_translate, 'encode': m_encode,
    'isupper': m_isupper, 'islower': m_islower, 'rindex': m_rindex, 'removeprefix': m_removeprefix,
    'removesuffix': m_removesuffix, 'center': m_center, 'format_map': m_format_map,
}
ALWAYS = ('format', 'join', 'format_map')
