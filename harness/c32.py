"""C32 Blocks and lines answer for the words they hold."""
from symx.registry import harness

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
WORDS = ['G1', 'G17', 'M3', 'G81', 'X{d}', 'Y{d}', 'R{d}', 'F{d}', 'N{i}', 'L{i}', 'x{d}', 'E{d}']
BLANKS = ['', ' ', '\t', '\t ', '  ']


def value(ctx, w, k, n):
    if '{' not in w:
        return w
    if n > 2:
        return w[0] + ('%d' % k if k else ctx.text('v', '0123456789', 1))
    v = ctx.decimal('v%d' % k, 1, 0, 99) if '{d}' in w else ctx.integer('v%d' % k, 0, 99)
    return w[0] + ctx.str(v)


def answers(ctx, block, label):
    words = list(block.words)
    for l in UP:
        first = [w for w in words if w.letter == l][:1]
        got = getattr(block, l)
        ctx.check(got is (first[0] if first else None), label + ': a letter gives the first word with it', (l, got, words))
    for n in ('x', 'XY', 'G1', 'nothing', '_x', '1'):
        ctx.must_raise(lambda: getattr(block, n), AttributeError, label + ': only letters are words')
    ctx.check(len(block) == len(block.gcodes) + (1 if block.modal_params else 0), label + ': length', (len(block), block.gcodes, block.modal_params))
    ctx.check(bool(block) == (len(words) > 0), label + ': a block is true when it has words', words)


def squeezed(ctx, text):
    out = []
    for c in ctx.chars(text):
        if ctx.isin(c, ' \t\r\n'):
            if out and out[-1] != ' ':
                out.append(' ')
        else:
            out.append(c)
    while out and out[-1] == ' ':
        out.pop()
    return out


@harness('C32', cases=[{'first': w, 'n': n} for n in (1, 2, 3) for w in WORDS] + [{'first': None, 'n': 0}],
         bounds='blocks of up to three words of 12 with symbolic numbers and various blanks; every attribute that is a letter, six others')
def block(ctx, case):
    ws = []
    if case['first']:
        ws = [case['first']] + [ctx.choice('w%d' % k, WORDS) for k in range(1, case['n'])]
    text = ctx.choice('lead', ['', ' ']) if case['n'] < 3 else ''
    for k, w in enumerate(ws):
        text = text + value(ctx, w, k, case['n']) + ctx.choice('b%d' % k, BLANKS if k == 0 else ['', '\t', ' \t'] if case['n'] < 3 else [' '])
    b, e = ctx.attempt(lambda: ctx.lib.Block(text, verify=False))
    if e is not None:
        ctx.check(isinstance(e, ctx.lib.GCodeParameterError), 'only a repeated parameter is refused', e)
        return
    ctx.check(len(b.words) == len(ws), 'number of words', (text, b.words))
    answers(ctx, b, 'block')
    got, exp = ctx.chars(b.text), squeezed(ctx, text)
    ctx.check(len(got) == len(exp), 'text of a block: blanks squeezed', (text, b.text))
    for x, y in zip(got, exp):
        ctx.check(x == y, 'text of a block: blanks squeezed', (text, b.text))
    line, e = ctx.attempt(lambda: ctx.lib.Line(text))
    if e is not None:       # (verified, this time)
        ctx.check(isinstance(e, AssertionError), 'refused only for a conflict', e)
        return
    ctx.check(len(line.text) == len(text) and line.text == text, 'text of a line is what was given', (text, line.text))
    ctx.check(line.gcodes is line.block.gcodes, 'codes of a line are those of its block')
    answers(ctx, line.block, 'line')


@harness('C32', cases=[{'n': n} for n in (0, 1, 2, 3)], bounds='up to three words with different letters of six, any values, any subset of four letters asked for')
def dictionary(ctx, case):
    ls, pool = [], list('GXZFQT')
    for k in range(case['n']):
        l = ctx.choice('l%d' % k, pool)
        pool.remove(l)
        ls.append(l)
    words = [ctx.lib.Word(l, ctx.real('v_' + l, -1000, 1000)) if l != 'T' else ctx.lib.Word('T', '12') for l in ls]
    vals = dict((w.letter, w.value) for w in words)
    limit = None if ctx.boolean('all') else ctx.choice('as', [list, tuple, set, ''.join])(ctx.subset('limit', 'GXTQ'))
    d = ctx.lib.words2dict(list(words)) if limit is None else ctx.lib.words2dict(iter(words), limit_word_letters=limit)
    exp = [l for l in ls if limit is None or l in limit]
    ctx.check(set(d) == set(exp), 'letters of the dictionary', (sorted(d), exp, limit))
    for l in exp:
        ctx.check(d[l] == vals[l], 'values of the dictionary', (l, d[l], vals[l]))
    for w in words:
        ctx.check(w.value == vals[w.letter], 'the words are not changed', w)


@harness('C32', cases=[{'codes': c} for c in ((), ('G1',), ('G0', 'M3'), ('G90', 'F'))], bounds='a block put together without text: any coordinates, with bare parameters or not')
def assembled(ctx, case):
    b = ctx.lib.Block()
    ctx.check(not b and len(b) == 0 and b.text == '' and not b.words, 'an empty block', b)
    for c in case['codes']:
        g = ctx.lib.words2gcodes([ctx.lib.Word(c) if len(c) > 1 else ctx.lib.Word(c, 5)])[0][0]
        if c in ('G0', 'G1'):
            g.add_parameter(ctx.lib.Word('X', ctx.decimal('x', 2, 0, 99)))
        b.gcodes.append(g)
    if ctx.boolean('bare'):
        b.modal_params.append(ctx.lib.Word('Y', ctx.decimal('y', 2, 0, 99)))
    ctx.check(len(b) == len(b.gcodes) + len(b.modal_params), 'length', len(b))
    t = ctx.str(b)
    ctx.check(len(b.text) == len(t) and b.text == t, 'text of a block without text is what would be written', (b.text, t))
    l = ctx.lib.Line()
    l.block = b
    ctx.check(len(l.text) == len(ctx.str(l)) and l.text == ctx.str(l), 'text of a line without text is what would be written', l.text)
    l2 = ctx.lib.Line('')
    ctx.check(l2.text == '' and l2.block is not None and not l2.block and not l2.comment and not l2.macro and l2.gcodes == [], 'an empty line', l2.text)


@harness('C32', cases=[{'turn': t} for t in range(6)], bounds='blocks of ten words with repeated letters in six arrangements, any values; dictionaries of ten words, any subset of four letters asked for')
def many_words(ctx, case):
    t = case['turn']
    spell = ['G1', 'X', 'N7', 'G17', 'M3', 'M8', 'Y', 'F', 'S', 'G40'][t:] + ['G1', 'X', 'N7', 'G17', 'M3', 'M8', 'Y', 'F', 'S', 'G40'][:t]
    text = ''
    for k, w in enumerate(spell):
        text = text + (' ' if k else '') + (w if len(w) > 1 else w + ctx.text('v' + w, '0123456789', 1))
    b = ctx.lib.Block(text)
    ctx.check(len(b.words) == 10, 'number of words', (text, b.words))
    answers(ctx, b, 'block')
    answers(ctx, ctx.lib.Line(text).block, 'line')
    words = [ctx.lib.Word(l, ctx.real('d' + l, -1000, 1000)) for l in ['XYZABCFSHD', 'DHSFCBAZYX', 'AXBYCZDFHS'][t % 3]]
    vals = dict((w.letter, w.value) for w in words)
    limit = None if ctx.boolean('all') else ctx.subset('limit', 'AXSF')
    d = ctx.lib.words2dict(words) if limit is None else ctx.lib.words2dict(words, limit_word_letters=limit)
    exp = [l for l in vals if limit is None or l in limit]
    ctx.check(set(d) == set(exp), 'letters of the dictionary', (sorted(d), exp, limit))
    for l in exp:
        ctx.check(d[l] == vals[l], 'values of the dictionary', (l, d[l], vals[l]))
