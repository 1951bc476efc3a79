"""C33 Copies of words, codes, blocks, lines and positions."""
from copy import copy, deepcopy
from symx.registry import harness
from harness.common import code, same_word, reals

CODES = ['G1 X1 Y2', 'G83 X1 Z-2 R3 Q4 L2', 'G2 X1 I2 P3', 'G10 L2 P1 X5', 'M3', 'F100', 'T5', 'G4 P1', 'M6 T1', 'N7', 'G96 S5']


def both(ctx):
    return (copy, 'copy') if ctx.boolean('shallow') else (deepcopy, 'deep copy')


def content(g):
    return g.word.letter, g.word.value, dict((l, (w.letter, w.value)) for l, w in g.params.items())


def same_content(ctx, a, b, label):
    ctx.check(a[0] == b[0] and a[1] == b[1], label + ': word', (a, b))
    ctx.check(set(a[2]) == set(b[2]), label + ': parameters', (a, b))
    for l in a[2]:
        ctx.check(a[2][l][0] == b[2][l][0] and a[2][l][1] == b[2][l][1], label + ': parameter', (a[2][l], b[2][l]))


@harness('C33', cases=[{'l': l} for l in 'GMXFSNLTOR'], bounds='words of ten letters, any value, then any other value on either')
def word(ctx, case):
    def val(n):
        if case['l'] in 'TO':
            return ctx.choice(n, ['1', '23'])
        return ctx.integer(n, 0, 99) if case['l'] in 'NL' else ctx.real(n, 0, 1000)
    f, how = both(ctx)
    v, v2 = val('v'), val('v2')
    w = ctx.lib.Word(case['l'], v)
    c = f(w)
    ctx.check(c is not w and type(c) is type(w), how + ' is another word')
    ctx.check(c == w and not (c != w) and c.letter == w.letter and c.value == w.value, how + ' is equal', (c, w))
    t, u = ctx.str(c), ctx.str(w)
    ctx.check(len(t) == len(u) and t == u, how + ' is written alike', (t, u))
    a, b = (c, w) if ctx.boolean('the_copy') else (w, c)
    a.value = v2
    ctx.check(b.value == v and b.letter == case['l'], how + ': the other keeps its value', (a, b))
    ctx.check(a.value == v2, how + ': this one has the new value', a)


@harness('C33', cases=[{'code': t} for t in CODES], bounds='eleven codes with parameters of any values; changes of any parameter of either')
def gcode(ctx, case):
    g = code(ctx, case['code'])
    for l in sorted(g.params):
        if l not in 'TLP':
            g.params[l].value = ctx.real('v_' + l, -1000, 1000)
    if ctx.boolean('written'):
        for l in sorted(g.params):
            g.params[l].value = '7' if l == 'T' else 7
        t, u = ctx.str(copy(g)), ctx.str(g)
        ctx.check(t == u and ctx.str(deepcopy(g)) == u, 'a copy is written alike', (t, u))
        return
    before = content(g)
    f, how = both(ctx)
    c = f(g)
    ctx.check(c is not g and type(c) is type(g), how + ' is another code of the class')
    same_content(ctx, content(c), before, how)
    ctx.check(c == g, how + ' is equal', (c, g))
    if how == 'deep copy':
        a, b = (c, g) if ctx.boolean('the_copy') else (g, c)
        what = ctx.choice('what', ['value', 'new', 'delete', 'word'])
        if what == 'word':
            a.word.value = a.word.value if case['code'][0] in 'T' else 0
        elif what == 'new':
            free = [l for l in sorted(a.param_letters) if l not in a.params]
            if free:
                a.add_parameter(ctx.lib.Word(free[0], '1' if free[0] == 'T' else 1))
        elif a.params:
            l = sorted(a.params)[0]
            if what == 'value':
                setattr(a, l, 77)
            else:
                del a.params[l]
        same_content(ctx, content(b), before, how + ': the other is not changed')


LINES = ['G1 X{d} Y2 (c) %m', 'X{d} M3', 'G81 X{d} Z-1 R2 L3', 'N5', '(only)', '']


@harness('C33', cases=[{'line': i, 'of': o} for i in range(len(LINES)) for o in ('block', 'line')], bounds='six lines with a symbolic number; words, codes or bare parameters of either changed')
def block(ctx, case):
    t = LINES[case['line']]
    if '{d}' in t:
        t = t[:t.index('{')] + ctx.str(ctx.decimal('d', 1, 0, 99)) + t[t.index('}') + 1:]
    l = ctx.lib.Line(t)
    f, how = both(ctx)
    c = f(l) if case['of'] == 'line' else f(l.block)
    x, y = (l, c) if case['of'] == 'line' else (l.block, c)
    bx, by = (l.block, c.block) if case['of'] == 'line' else (x, y)
    ctx.check(x is not y and type(x) is type(y), how + ' is another object of the class')
    s = ctx.str(x)
    ctx.check(len(ctx.str(y)) == len(s) and ctx.str(y) == s, how + ' is written alike', (s, y))
    ctx.check(len(by.words) == len(bx.words) and len(by.gcodes) == len(bx.gcodes) and len(by.modal_params) == len(bx.modal_params), how + ' has as many words and codes')
    for p, q in zip(by.words, bx.words):
        same_word(ctx, p, q, how + ': words', 1e-9)
    for g, h in zip(by.gcodes, bx.gcodes):
        same_content(ctx, content(g), content(h), how)
    for k in 'XMNY':
        p, q = getattr(by, k), getattr(bx, k)
        ctx.check((p is None) == (q is None), how + ' answers alike', k)
    if case['of'] == 'line':
        ctx.check(len(c.text) == len(l.text) and c.text == l.text, how + ': text', (c.text, l.text))
        ctx.check((c.comment is None) == (l.comment is None) and (c.comment is None or c.comment.text == l.comment.text), how + ': comment')
        ctx.check(c.macro == l.macro, how + ': macro')
    if how == 'deep copy':
        a, b = (bx, by) if ctx.boolean('the_original') else (by, bx)
        n, k, p = len(b.words), len(b.gcodes), len(b.modal_params)
        for w in a.words:
            if w.letter == 'X':
                w.value = 777
        del a.words[:]
        del a.gcodes[:]
        del a.modal_params[:]
        ctx.check((len(b.words), len(b.gcodes), len(b.modal_params)) == (n, k, p), how + ': the other keeps its words and codes')
        other = y if b is by else x
        ctx.check(len(ctx.str(other)) == len(s) and ctx.str(other) == s, how + ': the other is not changed', (s, other))


@harness('C33', cases=[{'axes': a, 'of': o, 'unit': u} for a in ('XYZ', 'XYZABCUVW', 'A') for o in ('position', 'system') for u in ('mm', 'inch')],
         bounds='positions and coordinate systems of three axis sets in both units, any coordinates; any one changed afterwards')
def position(ctx, case):
    UNITS = {'mm': ctx.lib.GCodeUseMillimeters.unit_id, 'inch': ctx.lib.GCodeUseInches.unit_id}
    P, axes = ctx.lib.Position, case['axes']
    vals = reals(ctx, 'p', axes)
    p = P(axes=set(axes), unit=UNITS[case['unit']], **vals)
    f, how = both(ctx)
    if case['of'] == 'system':
        cs = ctx.lib.CoordinateSystem(axes=set(axes))
        cs.offset = p
        c = f(cs)
        ctx.check(c is not cs and type(c) is type(cs), how + ' is another object of the class')
        q = c.offset
    else:
        q = f(p)
    ctx.check(q is not p and type(q) is type(p), how + ' is another position')
    ctx.check(set(q.axes) == set(axes) and q.unit == UNITS[case['unit']], how + ': axes and unit', (q.axes, q.unit))
    ctx.check(set(q.values) == set(axes), how + ': axes', q.values)
    ctx.check(q == p, how + ' is equal', (p, q))
    a, b = (p, q) if ctx.boolean('the_original') else (q, p)
    ax = ctx.choice('axis', sorted(axes))
    v = ctx.real('v', -100, 100)
    what = ctx.choice('what', ['set', 'update', 'unit', 'axes', 'values', 'words'])
    before = a.values
    if what == 'set':
        setattr(a, ax, v)
    elif what == 'update':
        a.update(**{ax: v})
    elif what == 'unit':
        a.unit = UNITS['inch' if case['unit'] == 'mm' else 'mm']
    elif what == 'axes':
        a.axes.discard(ax)
    else:       # (what a position gives is no way to change it)
        if what == 'values':
            for k in sorted(axes):
                before[k] = v
        else:
            for w in a.words:
                w.value = v
        for k in axes:
            ctx.check_close(getattr(a, k), vals[k], 'changing the %s given by a position does not change it' % what)
    ctx.check(set(b.axes) == set(axes) and b.unit == UNITS[case['unit']], how + ': the other keeps its axes and unit', (b.axes, b.unit))
    for k in axes:
        ctx.check_close(getattr(b, k), vals[k], how + ': the other is not changed')
    if what in ('set', 'update'):
        ctx.check_close(getattr(a, ax), v, how + ': this one is')
        ctx.check(ctx.Iff(a == b, ctx.And(v == vals[ax])), how + ': then they differ', (a, b))
