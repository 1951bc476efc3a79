"""C05 Conflicting codes in a block."""
from symx.registry import harness
from harness.tables import WORDS, GROUP
from harness.c04 import reference

TRIPLE = ['G0 X1', 'G1', 'G38.2 Z1', 'G38.3 Z2', 'G80', 'G81 X1', 'G4 P1', 'G90', 'G90.1', 'G91', 'M3', 'M4', 'S100', 'M7', 'M8', 'M62 P1', 'M62 P2',
          'G17', 'F100', 'T1', 'G54', 'G59.3', 'G28', 'G28.1', 'M0', 'N5', 'X1']


def items_of(text):
    return [(w[0], w if w in GROUP else {'F': 'F100', 'S': 'S100', 'T': 'T1', 'N': 'N10'}.get(w[0])) for w in text.split()]


def judge(ctx, text, words, items, same_number, label):
    """same_number(i, j): whether words i and j, of the same letter, have the same number."""
    exp = reference(items)
    if exp is None:
        return
    codes = exp[0]
    groups = [GROUP[items[c][1]] for c in codes]
    clash = any(groups[i] is not None and groups[i] == groups[j] or
                items[codes[i]][0] == items[codes[j]][0] and same_number(codes[i], codes[j])
                for i in range(len(codes)) for j in range(i))
    lax = ctx.lib.Block(text, verify=False)
    ctx.check(len(lax.gcodes) == len(codes), label + ': without verification the block is built', (text, lax.gcodes))
    b, e = ctx.attempt(lambda: ctx.lib.Block(text) if ctx.boolean('default') else ctx.lib.Block(text, verify=True))
    if clash:
        ctx.check(e is not None, label + ': conflicting codes are refused', text)
        return
    ctx.check(e is None, label + ': codes that do not conflict are accepted', (text, e))
    ctx.check(len(b.gcodes) == len(codes) and len(b.modal_params) == len(lax.modal_params), label + ': with the same codes', (text, b.gcodes))
    for x, y in zip(b.gcodes, lax.gcodes):
        ctx.check(x == y, label + ': with the same codes', (x, y))


def plain(ctx, text, label):
    ws = text.split()
    judge(ctx, text, ws, items_of(text), lambda i, j: float(ws[i][1:]) == float(ws[j][1:]), label)


@harness('C05', cases=[{'word': w} for w in WORDS if w[0] != 'O'], bounds='every pair of documented codes, in both orders')
def pairs(ctx, case):
    u = ctx.choice('other', [w for w in WORDS if w[0] != 'O'])
    plain(ctx, case['word'] + ' ' + u, 'pair')


@harness('C05', cases=[{'word': w} for w in TRIPLE], bounds='every triple of 27 codes with and without parameters')
def triples(ctx, case):
    plain(ctx, ' '.join([case['word'], ctx.choice('b', TRIPLE), ctx.choice('c', TRIPLE)]), 'triple')


@harness('C05', cases=lambda tier: [{'letter': l, 'u': u} for l in 'GM' for u in ([3, 38.2, 62, 92.1] if tier == 'quick' else [0, 1, 3, 28, 38.2, 54, 62, 90, 92.1, 7, 50, 81, 19])],
         bounds='any one-decimal G or M number from 0 to 99.9, with one of 4 (thorough: 13) other numbers')
def any_numbers(ctx, case):
    l = case['letter']
    v, u = ctx.decimal('v', 1, 0, 99), case['u']
    t = None
    for w in WORDS:
        if w[0] == l and ctx.decide(ctx.close(v, float(w[1:]), 1e-7)):
            t = w
            break
    tu = '%s%g' % (l, u)
    items = [(l, t), (l, tu if tu in GROUP else None)]
    same = ctx.decide(ctx.close(v, u, 1e-7))
    judge(ctx, l + ctx.str(v) + ' ' + tu, None, items, lambda i, j: same, 'any number')


@harness('C05', cases=[{'letter': l} for l in 'FSTN'], bounds='two F, S, T or N words with any values, beside a motion')
def values(ctx, case):
    l = case['letter']
    if l in 'FS':
        v, u = ctx.decimal('v', 1, 0, 12), ctx.decimal('u', 1, 0, 12)
    else:
        v, u = ctx.integer('v', 0, 12), ctx.integer('u', 0, 12)
    same = ctx.decide(v == u)
    mid = ctx.choice('between', ['', ' G1 X2', ' G90', ' M6'])
    text = l + ctx.str(v) + mid + ' ' + l + ctx.str(u)
    t = {'F': 'F100', 'S': 'S100', 'T': 'T1', 'N': 'N10'}[l]
    items = [(l, t)] + items_of(mid) + [(l, t)]
    judge(ctx, text, None, items, lambda i, j: same, 'values')


LONG = ['N5', 'G17', 'G90', 'G94', 'G54', 'G61', 'G21', 'G40', 'M3', 'M8', 'S100', 'F100', 'T1', 'G98', 'G91.1', 'G4 P1', 'M62 P1', 'G1 X1']


@harness('C05', cases=[{'with': w, 'n': n} for w in TRIPLE for n in (7, 12, 18)],
         bounds='7, 12 or 18 codes that do not conflict, with one of 27 codes put anywhere among them')
def long_blocks(ctx, case):
    ws = LONG[-case['n']:] if ctx.boolean('last') else LONG[:case['n']]
    at = ctx.choice('at', range(len(ws) + 1))
    plain(ctx, ' '.join(ws[:at] + [case['with']] + ws[at:]), 'long block')
