"""C07 Lines written out mean the same."""
from symx.registry import harness
from harness.common import same_word
from harness.c06 import build

TOL = 0.00050001


def same(ctx, a, b, label, exact=False):
    tol = 1e-9 if exact else TOL
    ctx.check(len(a.block.gcodes) == len(b.block.gcodes), label + ': number of codes', (a.block.gcodes, b.block.gcodes))
    for g, h in zip(a.block.gcodes, b.block.gcodes):
        ctx.check(type(g) is type(h), label + ': class of the code', (g, h))
        same_word(ctx, g.word, h.word, label + ': code', tol)
        ctx.check(set(g.params) == set(h.params), label + ': parameters', (g, h))
        for k in sorted(g.params):
            same_word(ctx, g.params[k], h.params[k], label + ': parameter', tol)
    p, q = a.block.modal_params, b.block.modal_params
    ctx.check(len(p) == len(q), label + ': bare parameters', (p, q))
    for x, y in zip(p, q):
        same_word(ctx, x, y, label + ': bare parameter', tol)
    ctx.check((a.comment is None) == (b.comment is None), label + ': comment', (a.comment, b.comment))
    if a.comment is not None:
        ctx.check(len(a.comment.text) == len(b.comment.text) and a.comment.text == b.comment.text, label + ': comment text', (a.comment, b.comment))
    ctx.check((not a.macro) == (not b.macro), label + ': macro', (a.macro, b.macro))
    if a.macro:
        ctx.check(len(a.macro) == len(b.macro) and a.macro == b.macro, label + ': macro text', (a.macro, b.macro))


def trip(ctx, text, label):
    l, e = ctx.attempt(lambda: ctx.lib.Line(text))
    if e is not None:
        return
    before = ctx.str(l)
    m, e = ctx.attempt(lambda: ctx.lib.Line(before))
    ctx.check(e is None, label + ': what is written is readable', (text, before, e))
    same(ctx, l, m, label)
    again = ctx.str(m)
    ctx.check(len(again) == len(before), label + ': writing again gives the same text', (before, again))
    ctx.check(again == before, label + ': writing again gives the same text', (before, again))
    ctx.check(len(l.text) == len(text) and l.text == text, label + ': a line keeps the text it was read from', (l.text, text))
    ctx.check(len(l.gcodes) == len(l.block.gcodes) and all(g is h for g, h in zip(l.gcodes, l.block.gcodes)), label + ': the codes of a line are those of its block')
    n = ctx.lib.Line()
    n.block, n.comment, n.macro = l.block, l.comment, l.macro
    ctx.check(len(n.text) == len(before) and n.text == before, label + ': a line put together is written alike', (n.text, before))
    b = ctx.str(l.block)
    blk = ctx.lib.Block(b)
    ctx.check(len(blk.gcodes) == len(l.block.gcodes) and len(blk.modal_params) == len(l.block.modal_params), label + ': the block alone', b)


NUM = ['G1 X{d}', 'G1 X1 Z{d} F2', 'X{d}', 'F{d}', 'S{s}', 'G81 X1 Z{d} R2', 'G4 P{d}', 'G2 X1 I{d}', 'N{i} G0', 'G81 X1 L{i}', 'G{c}', 'M{c}', 'T{i} M6', 'M6 T{i}', 'G92 X{d}', 'G10 L2 P{i} X1', 'g1x{d}y2']


def num_cases(tier):
    out = []
    for f in NUM:
        for n in ((1, 4) if tier == 'quick' else (1, 2, 3, 4, 6, 8)):
            if 'T{' in f and n > 2:
                if n > 4:
                    continue
                n = 2
            if '{c}' in f and n > 3:
                n = 3
            if {'form': f, 'digits': n} not in out:
                out.append({'form': f, 'digits': n})
    return out


@harness('C07', cases=num_cases,
         bounds='17 lines with one number of up to 4 (thorough: 8) digits before the point and up to 4 after it; of negative numbers those under -0.001; tool numbers of up to 2 digits')
def numbers(ctx, case):
    f, hi = case['form'], 10 ** case['digits']
    k = f[f.index('{') + 1]
    if k == 'd':
        v = ctx.decimal('v', 4 if case['digits'] < 8 else 3, 0, hi)
        if ctx.boolean('negative'):
            ctx.assume(v >= 0.001)      # (-0 has no counterpart in the solver's reals)
            v = -v
    elif k == 's':
        v = ctx.decimal('v', 3, 0, hi)
    elif k == 'c':
        v = ctx.decimal('v', 1, 0, min(hi, 999))
    else:
        v = ctx.integer('v', 0, hi)
    text = f[:f.index('{')] + ctx.str(v) + f[f.index('}') + 1:]
    trip(ctx, text, 'numbers')


ITEMS = ['G1', 'G81', 'M6', 'G96', 'G4', 'G90', 'M67', 'N7', 'X1.5', 'Z-2', 'P3', 'T2', 'S500', 'L2', 'G91.1', 'F60', 'R4']


@harness('C07', cases=lambda tier: [{'a': a, 'b': b} for a in ITEMS for b in ITEMS], bounds='3 (thorough: 4) words in any order, each any of 17')
def order(ctx, case):
    ws = [case['a'], case['b']] + [ctx.choice('w%d' % i, ITEMS) for i in range(2, 4 if ctx.tier == 'thorough' else 3)]
    trip(ctx, ' '.join(ws), 'order')


FORMS = ['G1 X2 {b}', 'G1{b}X2{b}', '{b}{b}', 'G1 X2 ; {s}', ';{s}', '{b};{s}', 'G1 {b} ; {s}', 'G1 ; {s}%{m}', '%{m}%', 'G1 X2%{m}', '{b}%{m}', 'O{s}', 'N1 {b}', '({s}%{s}) G1']


@harness('C07', cases=[{'form': f} for f in FORMS], bounds='14 arrangements of code, comments and macro; texts of up to 3 characters')
def comments(ctx, case):
    text = build(ctx, case['form'])
    text = text + ctx.choice('end', ['', ' ', '\n'])
    trip(ctx, text, 'comments')


@harness('C07', cases=[{'n': n} for n in range(0, 5)], bounds='every line of up to 4 characters of X 1 . - blank ( ) ; % G')
def any_line(ctx, case):
    trip(ctx, ctx.text('t', 'GX1.- (;)%', case['n']), 'any line')


@harness('C07', cases=[{'i': i, 'digit': d} for i in range(5) for d in range(3)],
         bounds='five lines of 11 to 20 words with comments and macro, any one or two digits of any value')
def long_line(ctx, case):
    text = ['N10 G90 G1 X1.5 Y-2 Z.25 A10 B-20 C30 F1200.5 S12000 T3 M8 H12 D4 Q0.1 L3 R2 (one) (two)',
            'G17G21G40G49G54G61G80G90G94G98G97M5M9X10Y20Z30 ; three',
            'u1 v2 w3 x4 y5 z6 i7 j8 k9 p10 e11 (four) %five',
            'M3 S100 M7 T12 F10.125 G55 G91 G98 G83 X1 Y2 Z-3.5 R4 Q0.25 L2 N7',
            'G4 P1.5 M66 P1 L3 M68 E1 Q2 G64 G1 X1 Y2 Z3 I4 J5'][case['i']]
    cs = list(text)
    places = [k for k, c in enumerate(text) if c in '0123456789' and text[k - 1] not in 'GMNgm' and text[k - 2] not in 'GMNgm' and k % 3 == case['digit']]
    k = ctx.choice('place', places)
    cs[k] = ctx.text('d', '0123456789', 1)
    if ctx.boolean('two') and k + 1 < len(cs) and k + 1 in [p + 1 for p in places] and text[k + 1] in '0123456789':
        cs[k + 1] = ctx.text('e', '0123456789', 1)
    full = ''
    for c in cs:
        full = full + c
    l = ctx.lib.Line(full)
    ctx.check(len(l.block.words) > 10, 'long line: words', l.block.words)
    trip(ctx, full, 'long line')


def written_cases(tier):
    from harness.tables import WORDS, PARAMS
    return [{'word': w} for w in WORDS if PARAMS[w]]


@harness('C07', cases=written_cases, bounds='every code with parameters; any one, two or all of them, given in three orders')
def written_parameters(ctx, case):
    from harness.tables import PARAMS
    from harness.c27 import fresh
    legal = sorted(PARAMS[case['word']])
    a = ctx.choice('a', legal)
    b = ctx.choice('b', legal)
    some = legal if ctx.boolean('all') else sorted(set([a, b]))
    k = ctx.choice('order', [0, 1, 2])
    given = some if k == 0 else list(reversed(some)) if k == 1 else some[len(some) // 2:] + some[:len(some) // 2]
    vals = dict((l, '3' if l in 'OT' else 2 + i if l in 'LN' else 1.5 + i) for i, l in enumerate(some))
    g = fresh(ctx, case['word'], *[ctx.lib.Word(l, vals[l]) for l in given])
    words = list(ctx.lib.words.text2words(ctx.str(g)))
    ctx.check(len(words) == 1 + len(some), 'one word for the code and one for each parameter', (ctx.str(g), words))
    same_word(ctx, words[0], g.word, 'the code first')
    for w, l in zip(words[1:], some):
        ctx.check(w.letter == l, 'parameters are written in letter order', (ctx.str(g), words))
        ctx.check(w.value == vals[l], 'with their values', (ctx.str(g), words))
