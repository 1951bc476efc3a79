"""Regular expressions over symbolic strings: a backtracking matcher over the parse trees of the
standard library's own parser.  Every character test may fork; knowledge gained stays on the path."""
import re as _re
from re import _parser, _compiler, _constants as C

from . import engine as E
from . import values as V
from .values import SymStr, mkstr, items_of, c_test, FULL, DIGITS, WORD, RE_SPACE, LOWER, UPPER, mask_of

NL = mask_of('\n')


def fold(m):
    r = m
    for b in V.bits(m & UPPER):
        r |= 1 << (b + 32)
    for b in V.bits(m & LOWER):
        r |= 1 << (b - 32)
    return r


def cat_mask(c):
    n = str(c)
    if n.endswith('NOT_DIGIT'):
        return FULL & ~DIGITS
    if n.endswith('DIGIT'):
        return DIGITS
    if n.endswith('NOT_SPACE'):
        return FULL & ~RE_SPACE
    if n.endswith('SPACE'):
        return RE_SPACE
    if n.endswith('NOT_WORD'):
        return FULL & ~WORD
    if n.endswith('WORD'):
        return WORD
    raise E.Unsupported('regex category %s' % n)


def in_mask(items, flags):
    m = 0
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            if av < 128:
                m |= 1 << av
        elif op is C.RANGE:
            for k in range(av[0], min(av[1], 127) + 1):
                m |= 1 << k
        elif op is C.CATEGORY:
            m |= cat_mask(av)
        else:
            raise E.Unsupported('regex set %s' % op)
    if flags & _re.IGNORECASE:
        m = fold(m)
    return FULL & ~m if neg else m


class Prog(object):
    def __init__(self, pattern, flags):
        self.tree = _parser.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups
        self.groupindex = dict(self.tree.state.groupdict)
        self.node = self.seq(list(self.tree), self.flags)
        self.single = None
        if len(self.tree) == 1 and self.tree[0][0] in (C.IN, C.LITERAL):
            op, av = self.tree[0]
            self.single = in_mask(av, self.flags) if op is C.IN else in_mask([(op, av)], self.flags)

    # each node: f(cs, i, caps, k) -> truthy end or None ; k(i, caps) continuation
    def seq(self, nodes, flags):
        fs = [self.one(n, flags) for n in nodes]

        def run(cs, i, caps, k, j=0):
            if j == len(fs):
                return k(i, caps)
            return fs[j](cs, i, caps, lambda i2, c2: run(cs, i2, c2, k, j + 1))
        if len(fs) == 1:
            return fs[0]
        return run

    def beyond(self, node, flags):
        """-> test of a character that is not ASCII (always a known one): asked of the standard library"""
        p = _parser.SubPattern(_parser.State(), [node])
        pat = _compiler.compile(p, flags | _re.UNICODE if not flags & _re.ASCII else flags)
        return lambda c: pat.match(c) is not None

    def charnode(self, mask, nonascii):
        def f(cs, i, caps, k):
            if i >= len(cs):
                return None
            c = cs[i]
            if type(c) is str and ord(c) >= 128:
                if not nonascii(c):
                    return None
            elif not c_test(c, mask):
                return None
            return k(i + 1, caps)
        f.mask = mask
        f.nonascii = nonascii
        return f

    def one(self, node, flags):
        op, av = node
        if op is C.LITERAL:
            m = in_mask([(op, av)], flags)
            return self.charnode(m, self.beyond(node, flags))
        if op is C.NOT_LITERAL:
            m = FULL & ~in_mask([(C.LITERAL, av)], flags)
            return self.charnode(m, self.beyond(node, flags))
        if op is C.ANY:
            return self.charnode(FULL if flags & _re.DOTALL else FULL & ~NL, self.beyond(node, flags))
        if op is C.IN:
            return self.charnode(in_mask(av, flags), self.beyond(node, flags))
        if op is C.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def f(cs, i, caps, k):
                for a in alts:
                    r = a(cs, i, caps, k)
                    if r is not None:
                        return r
                return None
            return f
        if op is C.SUBPATTERN:
            group, add, rem, p = av
            inner = self.seq(list(p), (flags | add) & ~rem)
            if group is None:
                return inner

            def f(cs, i, caps, k):
                def k2(i2, c2):
                    c3 = dict(c2)
                    c3[group] = (i, i2)
                    c3['last'] = group
                    return k(i2, c3)
                return inner(cs, i, caps, k2)
            return f
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            inner = self.seq(list(p), flags)
            hi = None if hi is C.MAXREPEAT else hi
            greedy = op is C.MAX_REPEAT
            mask = getattr(inner, 'mask', None)
            if mask is not None and greedy:
                def f(cs, i, caps, k):
                    n = 0
                    while (hi is None or n < hi) and i + n < len(cs):
                        c = cs[i + n]
                        if type(c) is str and ord(c) >= 128:
                            ok = inner.nonascii(c)
                        else:
                            ok = c_test(c, mask)
                        if not ok:
                            break
                        n += 1
                    while n >= lo:
                        r = k(i + n, caps)
                        if r is not None:
                            return r
                        n -= 1
                    return None
                return f

            def f(cs, i, caps, k):
                def go(n, i2, c2, last):
                    # as the standard library: no further iteration after one that matched nothing
                    def more():
                        if (hi is not None and n >= hi) or (n >= lo and i2 == last):
                            return None
                        return inner(cs, i2, c2, lambda i3, c3: go(n + 1, i3, c3, i2))
                    if n < lo:
                        return more()
                    if greedy:
                        r = more()
                        if r is not None:
                            return r
                        return k(i2, c2)
                    r = k(i2, c2)
                    if r is not None:
                        return r
                    return more()
                return go(0, i, caps, None)
            return f
        if op is C.AT:
            n = str(av)

            def f(cs, i, caps, k):
                if n == 'AT_BEGINNING':
                    ok = i == 0 or (bool(flags & _re.MULTILINE) and c_test(cs[i - 1], NL))
                elif n == 'AT_BEGINNING_STRING':
                    ok = i == 0
                elif n == 'AT_END':
                    ok = i == len(cs) or (i == len(cs) - 1 and c_test(cs[i], NL)) or (
                        bool(flags & _re.MULTILINE) and i < len(cs) and c_test(cs[i], NL))
                elif n == 'AT_END_STRING':
                    ok = i == len(cs)
                elif n in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                    a = i > 0 and c_test(cs[i - 1], WORD)
                    b = i < len(cs) and c_test(cs[i], WORD)
                    ok = (a != b) == (n == 'AT_BOUNDARY')
                else:
                    raise E.Unsupported('regex %s' % n)
                return k(i, caps) if ok else None
            return f
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            inner = self.seq(list(p), flags)
            want = op is C.ASSERT

            def f(cs, i, caps, k):
                if direction > 0:
                    got = []
                    r = inner(cs, i, caps, lambda i2, c2: got.append(c2) or i2)
                    ok = r is not None
                else:
                    ok = False
                    got = []
                    lo, hi = p.getwidth()
                    for w in range(int(lo), min(int(hi), i) + 1):
                        r = inner(cs, i - w, caps, lambda i2, c2: (got.append(c2) or i2) if i2 == i else None)
                        if r is not None:
                            ok = True
                            break
                if ok != want:
                    return None
                return k(i, got[-1] if (ok and want and got) else caps)
            return f
        if op is C.GROUPREF:
            def f(cs, i, caps, k):
                g = caps.get(av)
                if g is None:
                    return None
                part = cs[g[0]:g[1]]
                if i + len(part) > len(cs) or not all(V.c_eq(a, b) for a, b in zip(part, cs[i:i + len(part)])):
                    return None
                return k(i + len(part), caps)
            return f
        if op is C.ATOMIC_GROUP or op is C.POSSESSIVE_REPEAT:
            raise E.Unsupported('regex %s' % op)
        raise E.Unsupported('regex node %s' % op)

    def match_at(self, cs, i, full=False):
        res = []

        def k(i2, caps):
            if full and i2 != len(cs):
                return None
            res.append((i2, caps))
            return i2
        r = self.node(cs, i, {}, k)
        if r is None:
            return None
        return res[-1]


class Match(object):
    def __init__(self, pat, s, cs, start, end, caps):
        self.re = pat
        self.string = s
        self.pos = 0
        self.endpos = len(cs)
        self._cs = cs
        self._g = {0: (start, end)}
        self._g.update((k, v) for k, v in caps.items() if k != 'last')
        self.lastindex = caps.get('last')

    def __bool__(self):
        return True

    def _id(self, g):
        if isinstance(g, SymStr):
            g = g.native()
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        sp = self._g.get(self._id(g))
        if sp is None:
            return default
        return mkstr(self._cs[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._get(i, default)) for n, i in self.re.groupindex.items())

    def span(self, g=0):
        return self._g.get(self._id(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return _expand(template, self)


def _expand(template, m):
    t = _re._parser.parse_template(template, m.re.native)
    out = []
    for part in t:
        if isinstance(part, int):
            v = m._get(part)
            out.extend(items_of(v) if v is not None else [])
        elif part:
            out.extend(part)
    return mkstr(out)


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            pattern = pattern.native()
        self.native = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)
        self._flags0 = flags
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Prog(self.pattern, self._flags0)
        return self._prog

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _subject(self, s):
        if not isinstance(s, SymStr):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
        return s.chars()

    def _run(self, s, pos, endpos, mode):
        if isinstance(s, str):
            a = (s, pos) if endpos is None else (s, pos, endpos)
            return getattr(self.native, mode)(*a)
        cs = self._subject(s)
        if endpos is not None:
            cs = cs[:endpos]
        if mode == 'search':
            for i in range(pos, len(cs) + 1):
                r = self.prog.match_at(cs, i)
                if r is not None:
                    return Match(self, s, cs, i, r[0], r[1])
            return None
        r = self.prog.match_at(cs, pos, mode == 'fullmatch')
        return None if r is None else Match(self, s, cs, pos, r[0], r[1])

    def search(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'search')

    def match(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'match')

    def fullmatch(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'fullmatch')

    def finditer(self, string, pos=0):
        if isinstance(string, str):
            for m in self.native.finditer(string, pos):
                yield m
            return
        cs = self._subject(string)
        i = pos
        lastempty = -1
        while i <= len(cs):
            r = self.prog.match_at(cs, i)
            if r is None:
                i += 1
                continue
            if r[0] == i and lastempty == i:
                i += 1
                continue
            yield Match(self, string, cs, i, r[0], r[1])
            if r[0] == i:
                i += 1
            else:
                i = r[0]
                lastempty = -1

    def findall(self, string, pos=0):
        if isinstance(string, str):
            return self.native.findall(string, pos)
        out = []
        for m in self.finditer(string, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups('')[0])
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, string, count=0):
        if isinstance(string, str):
            if not callable(repl) and isinstance(repl, str):
                return self.native.subn(repl, string, count)
            string = SymStr(list(string))
        if self.prog.single is not None and not (self.prog.single & V.NUMSEG_ALPHABET) and not callable(repl) \
                and count == 0 and '\\' not in V.to_native_str(repl):
            out, n = [], 0
            for it in string.items:
                if type(it) is V.NumSeg or not (self.prog.node.nonascii(it) if type(it) is str and ord(it) >= 128 else c_test(it, self.prog.single)):
                    out.append(it)
                else:
                    n += 1
                    out.extend(items_of(repl))
            return mkstr(out), n
        cs = string.chars()
        out = []
        i = n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.extend(cs[i:m.start()])
            if callable(repl):
                out.extend(items_of(repl(m)))
            elif isinstance(repl, SymStr):
                out.extend(repl.items)
            else:
                out.extend(items_of(_expand(repl, m) if '\\' in repl else repl))
            i = m.end()
            n += 1
        out.extend(cs[i:])
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if isinstance(string, str):
            return self.native.split(string, maxsplit)
        cs = string.chars()
        out = []
        i = n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[i:m.start()]))
            out.extend(m.groups())
            i = m.end()
            n += 1
        out.append(mkstr(cs[i:]))
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = pattern.native()
    k = (pattern, int(flags))
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = Pattern(pattern, flags)
    return r


def _mod(name):
    def f(pattern, *a, **k):
        flags = k.pop('flags', 0)
        if name in ('search', 'match', 'fullmatch', 'findall', 'finditer') and len(a) > 1:
            flags = a[1]
            a = a[:1]
        return getattr(compile(pattern, flags), name)(*a, **k)
    return f
