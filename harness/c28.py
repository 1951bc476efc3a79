"""C28 Code words and code classes."""
from symx.registry import harness
from harness.tables import WORDS, GROUP, RANK, CLASSES, GROUPS

LETTERS = [chr(i) for i in range(65, 91)]
FREE = {'F': 'F100', 'S': 'S100', 'T': 'T1', 'N': 'N10', 'O': 'O10'}


def classes(ctx):
    out, todo = [], [ctx.lib.GCode]
    while todo:
        c = todo.pop()
        if c.__module__ == ctx.lib.GCode.__module__ and c not in out:
            out.append(c)
            todo += c.__subclasses__()
    return sorted(out, key=lambda c: c.__name__)


def number(ctx, l, name, lo=0, hi=100000):
    if l in 'GM':
        return ctx.decimal(name, 1, lo, hi)
    if l in 'NL':
        return ctx.integer(name, lo, hi)
    if l in 'OT':
        return ctx.text(name, '0123456789', ctx.choice(name + '_n', [1, 2, 3]))
    return ctx.real(name, -10 ** 6, 10 ** 6)


def expected(ctx, l, v):
    """Documented class name of a word, or None; decides which word the number is."""
    if l in FREE:
        return CLASSES[FREE[l]]
    for w in WORDS:
        if w[0] == l and ctx.decide(ctx.close(v, float(w[1:]), 1e-7)):
            return CLASSES[w]
    return None


@harness('C28', cases=[{'letter': l, 'exhaustive': x} for l in LETTERS for x in (False, True)],
         bounds='all 26 letters; G and M with every one-decimal number 0 to 99999.9, other letters with any number')
def every_word(ctx, case):
    l = case['letter']
    v = number(ctx, l, 'v')
    exp = expected(ctx, l, v)
    w = ctx.lib.Word(l, v)
    got = ctx.lib.word_gcode_class(w, exhaustive=True) if case['exhaustive'] else ctx.lib.word_gcode_class(w)
    ctx.check((got.__name__ if got else None) == exp, 'a word means exactly the documented code', (w, got))


@harness('C28', cases=[{'letter': l} for l in LETTERS],
         bounds='all 26 letters, any number as above: how many classes claim it')
def claimed_once(ctx, case):
    l = case['letter']
    v = number(ctx, l, 'v')
    exp = expected(ctx, l, v)
    w = ctx.lib.Word(l, v)
    got = []
    for c in classes(ctx):
        if c.word_key is not None:
            if ctx.decide(c.word_key == w):
                got.append(c)
        elif c.word_matches is not None and ctx.decide(c.word_matches(w)):
            got.append(c)
    ctx.check(len(got) <= 1, 'a word is claimed by at most one class', (w, got))
    ctx.check([c.__name__ for c in got] == ([exp] if exp else []), 'and by the documented one', (w, got))


def grammar(ctx, text, label):
    g, e = ctx.attempt(lambda: ctx.lib.text2gcodes(text))
    ctx.check(e is None and len(g) == 1, label + ': reads as one code', (text, g, e))
    return g[0]


@harness('C28', bounds='every code class with a default word')
def default_words(ctx, case):
    c = ctx.choice('class', [c for c in classes(ctx) if c.default_word or c.word_key])
    g = c()
    text = ctx.str(g)
    h = grammar(ctx, text, 'default word')
    ctx.check(type(h) is c, 'a default word reads as its own class', (c, h))
    ctx.check(h.word == g.word and not h.params, 'with the same word', (g, h))
    ctx.check(g.word is not c.word_key and g.word is not c.default_word, 'a code has a word of its own')
    names = sorted(set(CLASSES.values()))
    ctx.check(c.__name__ in names, 'a documented class', c)


@harness('C28', cases=[{'letter': l} for l in 'GM'] + [{'letter': l} for l in 'FSTN'],
         bounds='any one-decimal number: the word read from its text is the code it means, or is refused')
def from_text(ctx, case):
    l = case['letter']
    if l in 'FS':
        v = ctx.decimal('v', 3, 0, 100000)
    else:
        v = number(ctx, l, 'v', 0, 999)
    exp = expected(ctx, l, v)
    text = l + ctx.str(v)
    if exp is None:
        ctx.must_raise(lambda: ctx.lib.text2gcodes(text), ctx.lib.GCodeWordStrError, 'an unknown code is refused')
        b = ctx.lib.Block(text, verify=False)
        ctx.check(not b.gcodes and len(b.modal_params) == 1, 'an unknown code is no code', text)
        return
    h = grammar(ctx, text, 'code')
    ctx.check(type(h).__name__ == exp, 'text means the documented code', (text, h))
    if l in 'FSN':
        ctx.check(h.word.value == v, 'with its value', (text, h))


@harness('C28', bounds='every documented word: its group and its place in the order of execution, against every other')
def tables(ctx, case):
    w = ctx.choice('word', WORDS)
    u = ctx.choice('other', WORDS)
    g, h = [ctx.lib.Block(x, verify=False).gcodes[0] for x in (w, u)]
    m = ctx.lib.gcodes.MODAL_GROUP_MAP
    ctx.check((g.modal_group is None) == (GROUP[w] is None), 'has a modal group or none', (w, g.modal_group))
    if GROUP[w]:
        ctx.check(m[GROUP[w]] == g.modal_group, 'modal group', (w, g.modal_group))
        ctx.check((g.modal_group == h.modal_group) == (GROUP[w] == GROUP[u]), 'same group as documented', (w, u))
    ctx.check((g < h) == (RANK[w] < RANK[u]), 'runs before, as documented', (w, u))
    ctx.check((g > h) == (RANK[w] > RANK[u]), 'runs after, as documented', (w, u))
    ctx.check((g <= h) == (RANK[w] <= RANK[u]), 'runs no later, as documented', (w, u))
    ctx.check((g >= h) == (RANK[w] >= RANK[u]), 'runs no earlier, as documented', (w, u))
