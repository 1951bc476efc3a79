"""C01 Reading words from block text."""
from symx.registry import harness

DIG = '0123456789'
UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LET = UP + UP.lower()
BLANK = ' \t'
KIND = dict((l, 'float') for l in UP)
KIND.update(G='code', M='code', L='int', N='int', T='int', O='rest')


def join(cs):
    out = ''
    for c in cs:
        out = out + c
    return out


def number(ctx, letter, cs, i):
    """End of the number a letter's value starts with at cs[i:] (after blanks), or None; independent of the library."""
    kind = KIND[letter]
    if kind == 'rest':
        return len(cs) if i < len(cs) else None
    n = len(cs)
    if kind == 'float' and i < n and ctx.isin(cs[i], '-'):
        i += 1
    j = i
    while j < n and ctx.isin(cs[j], DIG):
        j += 1
    whole = j - i
    if kind == 'int':
        return j if whole else None
    if kind == 'code':
        if not whole:
            return None
        if j + 1 < n and ctx.isin(cs[j], '.') and ctx.isin(cs[j + 1], DIG):
            return j + 2
        return j
    if j < n and ctx.isin(cs[j], '.'):
        k = j + 1
        while k < n and ctx.isin(cs[k], DIG):
            k += 1
        if whole or k > j + 1:
            return k
        return None
    return j if whole else None


def letter_of(ctx, c):
    for l in UP:
        if ctx.isin(c, l + l.lower()):
            return l


def value_of(ctx, letter, cs):
    """Value spelt by the characters of a number."""
    if letter == 'O' or letter == 'T':
        return join(cs)
    if not ctx.symbolic:
        return int(join(cs)) if letter in 'LN' else float(join(cs))
    n, scale, neg, frac = 0, 1, False, False
    for c in cs:
        if ctx.isin(c, '-'):
            neg = True
        elif ctx.isin(c, '.'):
            frac = True
        else:
            n = n * 10 + int(c)
            scale *= 10 if frac else 1
    return (n if not neg else -n) / scale if scale > 1 else (n if not neg else -n)


def reference(ctx, cs):
    """('words', [(letter, value)]), ('error', why), or ('unclaimed', why)"""
    out = []
    i, n = 0, len(cs)
    while True:
        while i < n and ctx.isin(cs[i], BLANK):
            i += 1
        if i >= n:
            return 'words', out
        if not ctx.isin(cs[i], LET):
            for k in range(i, n):
                if ctx.isin(cs[k], LET):
                    return 'unclaimed', 'something else between words'
            return 'error', 'left over'
        letter = letter_of(ctx, cs[i])
        i += 1
        while i < n and ctx.isin(cs[i], BLANK):
            i += 1
        e = number(ctx, letter, cs, i)
        if e is None:
            return ('unclaimed' if letter == 'O' else 'error'), 'no number'
        out.append((letter, value_of(ctx, letter, cs[i:e])))
        i = e


def judge(ctx, text, res, label):
    kind, exp = res
    if kind == 'unclaimed':
        return
    got, e = ctx.attempt(lambda: list(ctx.lib.text2words(text)))
    if kind == 'error':
        ctx.check(isinstance(e, ctx.lib.GCodeWordStrError), label + ': is refused with a word error (%s)' % exp, (text, got, e))
        return
    ctx.check(e is None, label + ': is read', (text, e))
    ctx.check(len(got) == len(exp), label + ': number of words', (text, got))
    for w, (l, v) in zip(got, exp):
        ctx.check(w.letter == l, label + ': letter', (text, w))
        same(ctx, w, l, v, label, text)


def same(ctx, w, l, v, label, text):
    if l in 'OT':
        ctx.check(w.value == v, label + ': value', (text, w))
    else:
        ctx.check_close(w.value, v, label + ': value', tol=1e-9)
        ctx.check(type(w.value) is not str, label + ': value is a number', w)


def lengths(tier):
    return range(0, 8 if tier == 'thorough' else 6)


@harness('C01', cases=lambda tier: [{'n': n, 'alphabet': a} for n in lengths(tier) for a in ('Xg1.- ', 'xN0.-\t', 'Tm5. ?', 'FL7.% ')],
         bounds='every text of up to 5 (thorough: 7) characters over each of four alphabets of letters, digits, point, sign, blank and other characters')
def any_text(ctx, case):
    text = ctx.text('t', case['alphabet'], case['n'])
    judge(ctx, text, reference(ctx, ctx.chars(text)), 'text')


@harness('C01', cases=[{'letter': l} for l in UP], bounds='each letter followed by any up to 4 characters of 0-9 . - + blank ? and letters e x')
def after_letter(ctx, case):
    l = ctx.choice('case', [case['letter'], case['letter'].lower()])
    text = l + ctx.text('t', '059.-+ ?eX', ctx.choice('n', [0, 1, 2, 3, 4]))
    judge(ctx, text, reference(ctx, ctx.chars(text)), 'letter')


SPELL = {'float': ['d', 'ddd', 'd.', '.d', 'd.d', 'dddd.ddd', '-d', '-.d', '-dd.d', '0d', 'ddddd'],
         'code': ['d', 'dd', 'd.d', 'ddd', '0d', 'dd.d'], 'int': ['d', 'dd', 'dddddd', '0d']}


def spell(ctx, name, form):
    cs = [ctx.text('%s%d' % (name, i), DIG, 1) if c == 'd' else c for i, c in enumerate(form)]
    return cs


@harness('C01', cases=[{'letter': l, 'then': t} for l in UP if l != 'O' for t in ('X', 'G', 'T')],
         bounds='two words, any letters, up to 7 digits each with sign and point, 0 to 2 blanks anywhere, either case; also read as a block')
def two_words(ctx, case):
    l, k = case['letter'], case['then']
    f = ctx.choice('form', SPELL[KIND[l]])
    g = ctx.choice('then', SPELL[KIND[k]][:2])
    a, b = spell(ctx, 'a', f), spell(ctx, 'b', g)
    gap = ctx.choice('gap', ['', ' ', '  ', '\t'])
    inner = ctx.choice('inner', ['', ' ', ' \t'])
    exp = [(l, value_of(ctx, l, a)), (k, value_of(ctx, k, b))]
    pad = ctx.choice('pad', ['', ' '])
    lower = ctx.boolean('lower')
    text = pad + (l.lower() if lower else l) + inner + join(a) + gap + (k if lower else k.lower()) + inner + join(b) + pad
    judge(ctx, text, ('words', exp), 'two words')


@harness('C01', cases=[{'letter': l} for l in 'XYFPIRL'], bounds='block text with white space of any kind, against the same words')
def block(ctx, case):
    l = case['letter']
    a, b = spell(ctx, 'a', ctx.choice('form', SPELL[KIND[l]][:4])), spell(ctx, 'b', ctx.choice('then', ['d', '-d.dd']))
    ws = ctx.choice('ws', ['', ' ', '\t', '   ', ' \t '])
    text = ws + ('%s' if ctx.boolean('upper') else '%s').replace('%s', l.lower() if ctx.boolean('lower') else l) + ws + join(a) + ws + 'z' + join(b) + ws
    exp = [(l, value_of(ctx, l, a)), ('Z', value_of(ctx, 'Z', b))]
    ws_ = ctx.lib.Block(text, verify=False).words
    ctx.check(len(ws_) == 2, 'block: number of words', ws_)
    for w, (k, v) in zip(ws_, exp):
        ctx.check(w.letter == k, 'block: letter', w)
        same(ctx, w, k, v, 'block', text)
    one = ctx.lib.str2word(l + ws + join(a))
    ctx.check(one.letter == l, 'str2word: letter', one)
    same(ctx, one, l, exp[0][1], 'str2word', text)


@harness('C01', cases=[{'n': n} for n in range(1, 5)], bounds='program names of up to 4 characters of any kind')
def program_name(ctx, case):
    text = ctx.text('t', '0aZ. ?%(-', case['n'])
    cs = ctx.chars(text)
    if ctx.isin(cs[0], ' ') or ctx.isin(cs[-1], ' '):
        return
    got = list(ctx.lib.text2words(ctx.choice('letter', ['O', 'o']) + ctx.choice('blank', ['', ' ']) + text))
    ctx.check(len(got) == 1 and got[0].letter == 'O', 'a program name is one word', got)
    ctx.check(got[0].value == text, 'the program name is what was written', got)


LONG = ['N10 G90 G1 X1.5 Y-2 Z.25 A10 B-20 C30 F1200.5 S12000 T3 M8 H12 D4 Q0.1 L3 R2',
        'G17G21G40G49G54G61G80G90G94G97G98M5M9X0Y0Z0', 'u1 v2 w3 x4 y5 z6 i7 j8 k9 p10 e11']


@harness('C01', cases=[{'i': i, 'digit': d} for i in range(len(LONG)) for d in (0, 1, 2, 3)],
         bounds='three blocks of 11 to 18 words, any one digit and any blank anywhere between words (0 to 2 blanks), two digits of any value')
def long_block(ctx, case):
    text = LONG[case['i']]
    places = [k for k, c in enumerate(text) if c in DIG and k % 4 == case['digit']]
    k = ctx.choice('place', places)
    cs = list(text)
    cs[k] = ctx.text('d', DIG, 1)
    starts = [j for j in range(1, len(text)) if text[j] in LET and text[j - 1] != ' ']
    spaces = [j for j in range(len(text)) if text[j] == ' ']
    if ctx.boolean('squeeze'):
        cs = [c for j, c in enumerate(cs) if j not in spaces]
    elif starts:
        j = ctx.choice('blank', starts)
        cs[j:j] = [' ', ' ']
    full = join(cs)
    judge(ctx, full, reference(ctx, ctx.chars(full)), 'long block')
    got = ctx.lib.Block(full, verify=False)
    ctx.check(len(got.words) == sum(c in LET for c in text), 'long block: words of the block', got.words)


PRINTABLE = ''.join(chr(i) for i in range(32, 127)) + '\t'


@harness('C01', cases=[{'first': f, 'n': n} for f in ('X1', 'G59.', 'T5', 'n30 ', 'F-.5', 'G1 M3.1 ', '') for n in (1, 2, 3)],
         bounds='seven beginnings, then any one to three characters: printable ASCII and tab')
def left_over(ctx, case):
    text = case['first'] + ctx.text('t', PRINTABLE, case['n'])
    judge(ctx, text, reference(ctx, ctx.chars(text)), 'left over')


# no letters of words, whatever they fold to, and no digits or blanks
ODD = ['\u212a', '\u0130', '\u017f', '\u0131', '\xe9', '\xdf', '\xb2', '\xd7', '\ufeff', '\uff38']


@harness('C01', cases=[{'first': f, 'then': t} for f in ('', 'X1', 'G59.', 'T5 ', 'n30 ', 'G1 M3.1 ', 'F-') for t in ('', 'd', '.d', ' d')],
         bounds='seven beginnings, one of ten characters beyond ASCII, and up to one digit')
def beyond_ascii(ctx, case):
    text = case['first'] + ctx.choice('odd', ODD)
    for p in case['then']:
        text = text + (ctx.char('digit', DIG) if p == 'd' else p)
    judge(ctx, text, reference(ctx, ctx.chars(text)), 'beyond ASCII')


@harness('C01', cases=[{'letter': l, 'n': n} for l in UP for n in (300, 308, 309, 400, 4300, 4301, 5000) if KIND[l] != 'rest'],
         bounds='numbers of 300 to 5000 digits, three of each length, after every letter but O, alone or with a word on either side')
def huge(ctx, case):
    """More than a floating point number holds: refused, never read as something else."""
    l, n = case['letter'], case['n']
    number = ctx.choice('number', ['1' + '0' * (n - 1), '9' * n, '1' * n + ('.5' if KIND[l] in ('float', 'code') else '')])
    if KIND[l] == 'float' and ctx.boolean('negative'):
        number = '-' + number
    before, after = ctx.choice('with', [('', ''), ('G1 X2 ', ''), ('', ' Y3')])
    got, e = ctx.attempt(lambda: list(ctx.lib.text2words(before + l + number + after)))
    beyond = KIND[l] != 'int' and float(number) in (float('inf'), float('-inf'))
    if e is not None:
        ctx.check(isinstance(e, ctx.lib.GCodeWordStrError), 'huge: is refused with a word error', (l, n, e))
        ctx.check(beyond or (KIND[l] == 'int' and n > 4000), 'huge: is read', (l, n, e))
        return
    w = got[2 if before else 0]
    ctx.check(w.letter == l, 'huge: letter', w.letter)
    if l != 'T':
        ctx.check(not beyond, 'huge: is refused', (l, n))
        ctx.check(w.value == (int(number) if KIND[l] == 'int' else float(number)), 'huge: value', (l, n))
    again, e = ctx.attempt(lambda: ctx.lib.words.str2word(str(w)))
    ctx.check(e is None and again == w, 'huge: reads back', (l, n))
