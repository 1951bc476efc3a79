"""C03 Word equality, ordering and hashing."""
from symx.registry import harness

LETTERS = [chr(i) for i in range(65, 91)]
REAL = [l for l in LETTERS if l not in 'LNOT']


def value(ctx, letter, name, whole=False):
    if letter in 'LN':
        return ctx.integer(name, -10 ** 9, 10 ** 9)
    if letter in 'OT':
        return ctx.text(name, '01289' if letter == 'T' else 'aB1', ctx.choice(name + '_len', [1, 2]))
    return (ctx.integer if whole else ctx.real)(name, -10 ** 9, 10 ** 9)


def compare(ctx, a, b, eq, lt, label):
    gt = ctx.And(ctx.Not(eq), ctx.Not(lt))
    for op, got, exp in (('==', a == b, eq), ('!=', a != b, ctx.Not(eq)), ('<', a < b, lt), ('>', a > b, gt),
                         ('<=', a <= b, ctx.Or(eq, lt)), ('>=', a >= b, ctx.Or(eq, gt))):
        ctx.check(ctx.Iff(got, exp), '%s: %s' % (label, op), (a, b, got))


@harness('C03', cases=[{'letter': l} for l in LETTERS], bounds='two words of one letter, all 26 letters; numbers up to 1e9 (real, or one of them a whole number), texts up to 2 characters')
def same_letter(ctx, case):
    l = case['letter']
    x, y = value(ctx, l, 'x'), value(ctx, l, 'y', l in REAL and ctx.boolean('whole'))
    a, b = ctx.lib.Word(l, x), ctx.lib.Word(l.lower() if ctx.boolean('lower') else l, y)
    ctx.check(a.value == x, 'value is kept')
    eq, lt = ctx.decide(x == y), ctx.decide(x < y)
    compare(ctx, a, b, eq, lt, 'same letter')
    compare(ctx, b, a, eq, not eq and not lt, 'same letter, reversed')
    if eq:
        ctx.check(ctx.hash_of(a) == ctx.hash_of(b), 'equal words have equal hashes', (a, b))
        ctx.check(a in [b] and [a].index(b) == 0, 'an equal word is found in a list')


@harness('C03', cases=[{'letter': l} for l in LETTERS], bounds='two words of any two different letters, any values')
def different_letters(ctx, case):
    l = case['letter']
    k = ctx.choice('other', [c for c in LETTERS if c != l])
    a, b = ctx.lib.Word(l, value(ctx, l, 'x')), ctx.lib.Word(k, value(ctx, k, 'y'))
    compare(ctx, a, b, False, l < k, 'different letters')


@harness('C03', cases=[{'n': n} for n in (2, 3)], bounds='2 or 3 words, letters G X Y Z, any values')
def sorting(ctx, case):
    ls = [ctx.choice('l%d' % i, 'GXY') for i in range(case['n'])]
    vs = [ctx.real('v%d' % i) for i in range(case['n'])]
    ws = [ctx.lib.Word(l, v) for l, v in zip(ls, vs)]
    out = sorted(ws)
    ctx.check(len(out) == len(ws) and all(any(o is w for w in ws) for o in out), 'sorting keeps every word')
    for p, q in zip(out, out[1:]):
        ctx.check(ctx.Or(p.letter < q.letter, ctx.And(p.letter == q.letter, p.value <= q.value)), 'sorted by letter, then value', out)


FORMS = ['d', 'dd', 'd.d', 'd.dd', '-d', '-d.d', '.d', 'dd.']


@harness('C03', cases=[{'form': f, 'letter': l} for f in FORMS for l in 'XGMFLT'], bounds='words X G M F L T against text of up to 4 digits, with sign and decimal point, blank and lower case')
def with_text(ctx, case):
    l, f = case['letter'], case['form']
    if l in 'GM' and not (f in ('d', 'dd', 'd.d')) or l in 'LT' and '.' + '-' and ('.' in f or '-' in f):
        return
    ds = [ctx.char('d%d' % i, '0123456789') for i in range(f.count('d'))]
    it = iter(ds)
    parts = [next(it) if c == 'd' else c for c in f]
    text = ctx.choice('case', [l, l.lower()]) + ctx.choice('blank', ['', ' '] if l != 'T' else ['']) 
    for p in parts:
        text = text + p
    if l == 'T':
        v = ctx.text('v', '0123456789', ctx.choice('len', [1, 2]))
        spelt = ''
        for p in parts:
            spelt = spelt + p
        eq = ctx.decide(v == spelt)
    else:
        n, scale, seen = 0, 1, False
        for p in parts:
            if p == '.':
                seen = True
            elif p != '-':
                n = n * 10 + int(p)
                if seen:
                    scale *= 10
        v = ctx.integer('v', -10000, 10000) if l == 'L' else ctx.real('v', -10000, 10000)
        eq = ctx.decide(v * scale == (-n if '-' in parts[:1] else n))
        if not ctx.symbolic and scale > 1:
            eq = v == float(''.join(parts))
    w = ctx.lib.Word(l, v)
    ctx.check(ctx.Iff(w == text, eq), 'compared with text', (w, text))
    ctx.check(ctx.Iff(w != text, not eq), 'compared with text (!=)', (w, text))


ZEROS = [0, 0.0, -0.0]


@harness('C03', cases=[{'letter': l} for l in REAL], bounds='the zeros (0, 0.0 and -0.0, which no real number stands for) against each other, all real-valued letters')
def zeros(ctx, case):
    l = case['letter']
    a, b = ctx.lib.Word(l, ctx.choice('x', ZEROS)), ctx.lib.Word(l, ctx.choice('y', ZEROS))
    compare(ctx, a, b, True, False, 'zeros')
    ctx.check(ctx.hash_of(a) == ctx.hash_of(b), 'equal words have equal hashes', (a, b))
