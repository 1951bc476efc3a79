"""C04 Grouping words into codes."""
from symx.registry import harness
from harness.tables import WORDS, PARAMS, CLASSES

LETTERS = [chr(i) for i in range(65, 91)]
FREE = 'FSTNO'
ITEMS = ['G1', 'G83', 'M6', 'G96', 'M66', 'G4', 'M67', 'G5', 'G41', 'G90', 'G10', 'G9.9', 'F', 'S', 'T', 'N', 'X', 'Z', 'P', 'Q', 'L', 'D', 'E', 'R', 'H']
MORE = ['G1', 'G83', 'M6', 'G96', 'M67', 'G4', 'T', 'S', 'X', 'P', 'L']


def number(ctx, l, name):
    if l in 'NL':
        return ctx.integer(name, 0, 1000)
    if l in 'OT':
        return ctx.choice(name, ['1', '22'])
    return ctx.real(name, -1000, 1000)


def accepts(w, l):
    return w is not None and l in PARAMS[w]


def reference(items):
    """items: list of (letter, table word or None).  Returns (codes, params, bare): indices; or None if refused."""
    codes, params, bare = [], {}, []
    for i, (l, w) in enumerate(items):
        owner = [c for c in codes if accepts(items[c][1], l)]
        if owner:
            params.setdefault(owner[-1], []).append(i)
        elif w is not None:
            codes.append(i)
        else:
            bare.append(i)
    for c, ps in params.items():
        ls = [items[p][0] for p in ps]
        if len(set(ls)) < len(ls):
            return None
    return codes, params, bare


def judge(ctx, words, items, label):
    exp = reference(items)
    given = list(words)
    if exp is None:
        ctx.must_raise(lambda: ctx.lib.words2gcodes(words), ctx.lib.GCodeParameterError, label + ': the same parameter twice is refused')
        return None
    got, bare = ctx.lib.words2gcodes(words)
    codes, params, rest = exp
    ctx.check(len(words) == len(given) and all(a is b for a, b in zip(words, given)), label + ': the list given is unchanged')
    ctx.check(len(got) == len(codes), label + ': number of codes', (words, got))
    for g, c in zip(got, codes):
        ctx.check(type(g).__name__ == CLASSES[items[c][1]], label + ': class of the code', (words, g))
        same(ctx, g.word, given[c], label + ': word of the code', words)
        ps = params.get(c, [])
        ctx.check(set(g.params) == set(items[p][0] for p in ps), label + ': parameters of the code', (words, g))
        for p in ps:
            same(ctx, g.params[items[p][0]], given[p], label + ': parameter', words)
    ctx.check(len(bare) == len(rest), label + ': number of words left over', (words, bare))
    for b, r in zip(bare, rest):
        same(ctx, b, given[r], label + ': word left over', words)
    return got


def same(ctx, a, b, label, info):
    ctx.check(a.letter == b.letter and a.value == b.value, label, info)


def make(ctx, w, name):
    """(word, (letter, table word))"""
    l = w[0]
    if len(w) > 1:
        return ctx.lib.Word(l, float(w[1:])), (l, w if w in CLASSES else None)
    t = {'F': 'F100', 'S': 'S100', 'T': 'T1', 'N': 'N10', 'O': 'O10'}.get(l)
    return ctx.lib.Word(l, number(ctx, l, name)), (l, t)


def run(ctx, ws, label):
    made = [make(ctx, w, 'v%d' % i) for i, w in enumerate(ws)]
    return judge(ctx, [m[0] for m in made], [m[1] for m in made], label)


@harness('C04', cases=[{'first': a} for a in ITEMS], bounds='up to 3 words, each any of 25 (11 codes, F S T N, 10 parameter letters), any values')
def three_words(ctx, case):
    ws = [case['first']]
    for i in (1, 2):
        w = ctx.choice('w%d' % i, [None] + ITEMS)
        if w is None:
            break
        ws.append(w)
    run(ctx, ws, 'three words')


@harness('C04', cases=lambda tier: [{'n': n, 'first': a, 'second': b} for n in ([4, 5] if tier == 'thorough' else [4]) for a in MORE for b in MORE],
         bounds='4 (thorough: 5) words, each any of 11, any values')
def more_words(ctx, case):
    ws = [case['first'], case['second']] + [ctx.choice('w%d' % i, MORE) for i in range(2, case['n'])]
    run(ctx, ws, 'more words')


@harness('C04', cases=[{'word': w} for w in WORDS], bounds='every documented code followed by any letter and by one of X P T S, any values; empty list')
def every_code(ctx, case):
    w = case['word']
    first = (ctx.lib.Word(w[0], w[1:] if w[0] in 'OT' else float(w[1:])), (w[0], w))
    l = ctx.choice('letter', LETTERS)
    rest = [make(ctx, l if l not in 'GM' else l + '9.9', 'v1')]
    k = ctx.choice('then', [None, 'X', 'P', 'T', 'S', 'G1', 'M6'])
    if k:
        rest.append(make(ctx, k, 'v2'))
    made = [first] + rest
    if ctx.boolean('code_last'):
        made = rest + [first]
    judge(ctx, [m[0] for m in made], [m[1] for m in made], 'every code')
    g, b = ctx.lib.words2gcodes([])
    ctx.check(len(g) == 0 and len(b) == 0, 'no words, no codes')


@harness('C04', cases=[{'letter': l} for l in 'GM'], bounds='any one-decimal G or M number followed by X Q and T words: a code or not, by its number')
def any_number(ctx, case):
    l = case['letter']
    v = ctx.decimal('v', 1, 0, 1000)
    t = None
    for w in WORDS:
        if w[0] == l and ctx.decide(ctx.close(v, float(w[1:]), 1e-7)):
            t = w
            break
    rest = [make(ctx, k, 'v' + k) for k in 'XQT']
    judge(ctx, [ctx.lib.Word(l, v)] + [m[0] for m in rest], [(l, t)] + [m[1] for m in rest], 'any number')


TEXTS = ['G1 X1 F2', 'M6 T1', 'T1 M6', 'X1 Y2', 'G83 X1 Q2 S3', 'S1 M3 G96 D2 S5', 'N5 G0 X1', 'G1 X1 X2', 'G4 P1 X2', '']


@harness('C04', cases=[{'text': t} for t in TEXTS], bounds='ten texts, each through blocks and text2gcodes')
def through_text(ctx, case):
    made = [make(ctx, w if w[0] in 'GM' else w[0], 'v%d' % i) for i, w in enumerate(case['text'].split())]
    for m, w in zip(made, case['text'].split()):
        if w[0] not in 'GM':
            m[0].value = w[1:] if w[0] in 'OT' else float(w[1:])
    exp = reference([m[1] for m in made])
    if exp is None:
        ctx.must_raise(lambda: ctx.lib.Block(case['text']), ctx.lib.GCodeParameterError, 'block: the same parameter twice is refused')
        return
    codes, params, rest = exp
    b = ctx.lib.Block(case['text'])
    ctx.check(len(b.gcodes) == len(codes) and len(b.modal_params) == len(rest), 'block: codes and bare words', b.gcodes)
    for g, c in zip(b.gcodes, codes):
        same(ctx, g.word, made[c][0], 'block: code', case)
        ctx.check(set(g.params) == set(made[p][1][0] for p in params.get(c, [])), 'block: parameters', g)
    for w, r in zip(b.modal_params, rest):
        same(ctx, w, made[r][0], 'block: bare word', case)
    if rest:
        ctx.must_raise(lambda: ctx.lib.text2gcodes(case['text']), ctx.lib.GCodeWordStrError, 'text2gcodes: words left over are refused')
    else:
        ctx.check(len(ctx.lib.text2gcodes(case['text'])) == len(codes), 'text2gcodes: number of codes')


LONG = [['N', 'G90', 'G17', 'G54', 'M3', 'S', 'M8', 'G1', 'X', 'Y', 'Z', 'A', 'F', 'G61', 'T'],
        ['M6', 'T', 'G83', 'X', 'Y', 'Z', 'R', 'Q', 'L', 'G98', 'G91', 'F', 'M9', 'X'],
        ['X', 'G4', 'P', 'Y', 'M67', 'E', 'Q', 'G96', 'D', 'S', 'G2', 'I', 'J', 'R', 'N'],
        ['A', 'B', 'C', 'U', 'V', 'W', 'X', 'Y', 'Z', 'G0', 'Q'],
        ['G1', 'A', 'B', 'C', 'U', 'V', 'W', 'X', 'Y', 'Z', 'K', 'G10', 'L', 'P', 'R']]


@harness('C04', cases=[{'i': i, 'turn': t} for i in range(len(LONG)) for t in range(0, 15)],
         bounds='five lists of 11 to 15 words, from every word on, any two words swapped, any values')
def long_lists(ctx, case):
    ws = list(LONG[case['i']])
    t = case['turn'] % len(ws)
    ws = ws[t:] + ws[:t]
    j, k = ctx.choice('j', range(len(ws))), ctx.choice('k', range(len(ws)))
    if j > k:
        return
    ws[j], ws[k] = ws[k], ws[j]
    run(ctx, ws, 'long list')
