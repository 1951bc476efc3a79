"""C27 Code parameters."""
from symx.registry import harness
from harness.common import code
from harness.tables import WORDS, PARAMS

LETTERS = [chr(i) for i in range(65, 91)]


def value(ctx, letter, name):
    if letter in 'LN':
        return ctx.integer(name, 0, 10 ** 6)
    if letter in 'OT':
        return ctx.choice(name, ['1', '23', '007'])
    return ctx.real(name, -10 ** 6, 10 ** 6)


def spelt(w):
    """Letter and value of a code word of the table."""
    return (w[0], w[1:] if w[0] in 'OT' else int(w[1:]) if w[0] in 'N' else float(w[1:]))


def fresh(ctx, w, *params):
    """A code object made from its words by its class constructor."""
    k = type(ctx.lib.Block(w, verify=False).gcodes[0])
    return k(ctx.lib.Word(*spelt(w)), *params)


def refused(ctx, fn, g, before, label):
    ctx.must_raise(fn, ctx.lib.GCodeParameterError, label)
    ctx.check(set(g.params) == set(before), label + ': parameters are unchanged')
    for k in sorted(before):
        ctx.check(g.params[k].value == before[k], label + ': value is unchanged', g)


@harness('C27', cases=[{'word': w} for w in WORDS], bounds='every supported code; every letter given, then every letter again; any values')
def accept(ctx, case):
    w = case['word']
    legal = PARAMS[w]
    g = fresh(ctx, w)
    l = ctx.choice('letter', LETTERS)
    how = ctx.choice('how', ['add', 'word', 'keyword', 'attribute'])
    v = value(ctx, l, 'v')
    Word = ctx.lib.Word
    if l not in legal:
        if how == 'add':
            refused(ctx, lambda: g.add_parameter(Word(l, v)), g, {}, 'an illegal parameter is refused')
        elif how == 'word':
            ctx.must_raise(lambda: type(g)(g.word, Word(l, v)), ctx.lib.GCodeParameterError, 'an illegal parameter is refused (constructor)')
        elif how == 'keyword':
            ctx.must_raise(lambda: type(g)(g.word, **{l: v}), ctx.lib.GCodeParameterError, 'an illegal parameter is refused (keyword)')
        else:
            ctx.must_raise(lambda: getattr(g, l), AttributeError, 'an illegal parameter cannot be read')
        return
    if how == 'add':
        g.add_parameter(Word(l, v))
    elif how == 'word':
        g = type(g)(g.word, Word(l, v))
    elif how == 'keyword':
        g = type(g)(g.word, **{l: v})
    else:
        setattr(g, l, v)
    ctx.check(set(g.params) == set([l]), 'exactly the given parameter is there', g)
    ctx.check(g.params[l].letter == l and g.params[l].value == v, 'the parameter has its value', g)
    ctx.check(getattr(g, l) == v, 'the attribute has its value', g)
    for k in sorted(legal):
        if k != l:
            ctx.check(getattr(g, k) is None, 'a legal parameter that was not given reads as nothing', g)
    if how != 'attribute':
        refused(ctx, lambda: g.add_parameter(Word(l, value(ctx, l, 'again'))), g, {l: v}, 'a parameter given twice is refused')
    u = value(ctx, l, 'new')
    setattr(g, l, u)
    ctx.check(set(g.params) == set([l]) and getattr(g, l) == u and g.params[l].letter == l, 'assigning replaces the value', g)
    ctx.check(g.word.letter == w[0] and g.word.value == spelt(w)[1], 'the code word is unchanged', g.word)


@harness('C27', cases=[{'word': w} for w in WORDS if len(PARAMS[w]) > 0],
         bounds='every code with parameters; any two different legal letters, any values, any requested letters of four')
def several(ctx, case):
    w = case['word']
    legal = sorted(PARAMS[w])
    a = ctx.choice('a', legal)
    b = ctx.choice('b', [l for l in legal if l != a]) if len(legal) > 1 else None
    vals = {a: value(ctx, a, 'va')}
    if b:
        vals[b] = value(ctx, b, 'vb')
    g = fresh(ctx, w, *[ctx.lib.Word(l, v) for l, v in vals.items()])
    ask = ctx.choice('ask', ['none', 'a', 'b', 'other', 'empty'])
    letters = {'none': None, 'a': [a], 'b': set([b or 'Z']), 'other': 'XZ', 'empty': []}[ask]
    d = g.get_param_dict(letters=letters, lc=True) if ctx.boolean('lower') else g.get_param_dict(letters)
    d = dict((k.upper(), v) for k, v in d.items())
    exp = dict((k, v) for k, v in vals.items() if letters is None or k in letters)
    ctx.check(set(d) == set(exp), 'the dictionary holds exactly the requested parameters', d)
    for k in sorted(exp):
        ctx.check(d[k] == exp[k], 'value in the dictionary', d)
    u = value(ctx, a, 'new')
    setattr(g, a, u)
    ctx.check(getattr(g, a) == u, 'assigned value')
    if b:
        ctx.check(getattr(g, b) == vals[b], 'assigning one parameter leaves the other')
    ctx.check(len(g.params) == len(vals), 'number of parameters')


@harness('C27', cases=[{'word': w} for w in WORDS if len(PARAMS[w]) > 0], bounds='every code with parameters; two copies with up to two parameters each')
def equality(ctx, case):
    w = case['word']
    legal = sorted(PARAMS[w])
    a = ctx.choice('a', legal)
    rest = [l for l in legal if l != a]
    b = ctx.choice('b', [None] + rest)
    c = ctx.choice('c', [None, b] + rest[:1] if b else [None] + rest[:1])
    x, y = value(ctx, a, 'x'), value(ctx, a, 'y')
    p = value(ctx, b, 'p') if b else None
    q = value(ctx, c, 'q') if c else None
    g = fresh(ctx, w, *([ctx.lib.Word(a, x)] + ([ctx.lib.Word(b, p)] if b else [])))
    h = fresh(ctx, w, *(([ctx.lib.Word(c, q)] if c else []) + [ctx.lib.Word(a, y)]))
    eq = ctx.And(x == y, b == c, p == q if b and b == c else True)
    ctx.check(ctx.Iff(g == h, eq), 'codes are equal exactly when word and parameters are', (g, h))
    ctx.check(ctx.Iff(g != h, ctx.Not(eq)), 'unequal exactly when not equal', (g, h))
    ctx.check(g == g and not (g != g), 'a code equals itself')
    if isinstance(g, ctx.lib.gcodes.GCodeCannedCycle):
        return
    r, e = ctx.attempt(lambda: list(ctx.lib.utils.omit_redundant_modes([g, h])))
    if e is None:
        ctx.check(ctx.Iff(r[0] == r[1], eq), 'equal however they are to be written', (r, g, h))
        ctx.check(r[0] == g and g == r[0] and r[1] == h and h == r[1], 'equal however they are to be written', (r, g, h))


@harness('C27', cases=[{'word': w} for w in WORDS], bounds='every pair of supported codes without parameters; F S T N with any number')
def different_words(ctx, case):
    w = case['word']
    u = ctx.choice('other', WORDS)
    a, b = spelt(w), spelt(u)
    same = w == u
    if w in ('F100', 'S100') and u == w:
        v = ctx.real('v', 0, 10 ** 6)
        b = (b[0], v)
        same = v == 100
    g, h = fresh(ctx, w), type(ctx.lib.Block(u, verify=False).gcodes[0])(ctx.lib.Word(*b))
    ctx.check(ctx.Iff(g == h, same), 'codes with different words differ', (g, h))
    ctx.check(ctx.Iff(g != h, ctx.Not(same)), 'codes with different words differ (!=)', (g, h))
