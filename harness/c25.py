"""C25 Omitting redundant motion words."""
from copy import copy

from symx.registry import harness
from harness.common import code, codes, same_word, state_of, same_state

# moves: word -> parameters always given (so that nothing depends on what a canned cycle retains)
MOVES = {'G0': 'X', 'G1': 'XY', 'G2': 'XJ', 'G3': 'XR', 'G81': 'XZR', 'G82': 'XZRP', 'G83': 'XZRQ', 'G38.2': 'Z', 'G38.3': 'Z', 'G5': 'XIJPQ', 'G73': 'XZRQ', 'G33': 'ZK', 'G01': 'X'}
OTHERS = ['G80', 'G4 P1', 'G91', 'G90', 'M3', 'F100', 'G99', 'G98', 'G17', 'G18', 'G21', 'G92.2', 'G54', 'G55', 'M2', 'N5', 'T1', 'G53', 'G10 L2 P1 X2', 'G92.1', 'S5', 'G28']


def make(ctx, kind, i, places=None):
    if kind not in MOVES:
        return code(ctx, kind)
    g = code(ctx, kind)
    for l in MOVES[kind]:
        name = 'v%d%s' % (i, l)
        if l in 'XYZ':
            if l != MOVES[kind][0]:
                v = 3.0
            else:
                v = ctx.real(name, -100, 100) if places is None else ctx.decimal(name, places, 0, 9)
        else:
            v = {'R': 2, 'P': 1, 'Q': 1, 'I': 1, 'J': 1, 'K': 1, 'L': 2}[l]
        g.add_parameter(ctx.lib.Word(l, v))
    return g


def snapshot(g):
    return (type(g), g.word.letter, g.word.value, dict((l, (id(w), w.value)) for l, w in g.params.items()))


def blank(ctx, g):
    """Whether the code is printed without its word; None if it isn't printed like a code at all."""
    g = copy(g)
    g.params = {}
    text = ctx.str(g)
    w = ctx.str(g.word)
    if text.strip() == w:
        return False
    return True if text.strip() == '' else None


def run(ctx, case, items, text):
    f = ctx.lib.utils.omit_redundant_modes
    before = [snapshot(g) for g in items]
    out = list(f(iter(items)))
    ctx.check(len(out) == len(items), 'as many codes as were given', (items, out))
    M = ctx.lib.machine.NullMachine
    a, b = M(), (M() if case['machine'] == 'null' else ctx.lib.Machine())
    if case['machine'] != 'null':
        a = ctx.lib.Machine()
    ref = M()       # tells which motion is active
    for i, (g, h) in enumerate(zip(items, out)):
        ctx.check(type(h) is type(g), 'class and order are kept', (g, h))
        same_word(ctx, h.word, g.word, 'word')
        ctx.check(set(h.params) == set(g.params), 'parameters', (g, h))
        for l in sorted(g.params):
            same_word(ctx, h.params[l], g.params[l], 'parameter')
        bl = blank(ctx, h)
        act = ref.mode.motion
        if bl:
            ctx.check(act is not None and act.word == g.word, 'only the word of the active motion is left out', (act, g))
        else:
            ctx.check(bl is False, 'printed with its word or blanks in its place', h)
        if act is not None and g.modal_group is not None and g.modal_group == act.modal_group and act.word == g.word:
            ctx.reach('redundant word')
            ctx.check(bl is True, 'a repeated motion word is left out', (act, g))
        ref.process_gcodes(items[i])
        a.process_gcodes(items[i])
        if text:
            b.process_str(ctx.str(h))
        elif bl:
            b.process_gcodes(modal_params=list(h.params.values()))
        else:
            b.process_gcodes(h)
        same_state(ctx, state_of(b), state_of(a), 'executing line %d' % i, 0.0006 if text else None)
    for g, (t, l, v, ps) in zip(items, before):
        ctx.check(type(g) is t and g.word.letter == l and g.word.value == v and dict((k, (id(w), w.value)) for k, w in g.params.items()) == ps,
                  'the codes given are not modified', g)
        ctx.check(blank(ctx, g) is False, 'the codes given are still printed in full', g)


def cases(tier):
    mv = sorted(MOVES)
    return [{'a': a, 'machine': m} for a in mv for m in ('null', 'default')]


@harness('C25', cases=cases, bounds='sequences of three (thorough: four): any of 13 motions, anything, any of 13 motions; real coordinates')
def sequence(ctx, case):
    mv = sorted(MOVES)
    kinds = [case['a']]
    if ctx.tier == 'thorough':
        kinds.append(ctx.choice('t', ['G0', 'G91', 'G18', 'G80', 'G81']))
    kinds.append(ctx.choice('b', mv + OTHERS))
    near = [case['a']] + [x for x in ('G0', 'G1', 'G81', 'G38.3', 'G01') if x != case['a']]
    kinds.append(ctx.choice('c', near if ctx.tier == 'quick' else mv))
    run(ctx, case, [make(ctx, k, i) for i, k in enumerate(kinds)], False)


@harness('C25', cases=[{'a': a, 'machine': m} for a in ['G0', 'G1', 'G2', 'G81', 'G83'] for m in ('null', 'default')],
         bounds='sequences of three printed and read back; one coordinate of up to one (thorough: two) decimals per code')
def printed(ctx, case):
    b = ctx.choice('b', [case['a'], 'G80', 'G4 P1', 'G91', 'G1', 'F100', 'T1', 'G0'])
    items = [make(ctx, case['a'], 0, 1), make(ctx, b, 1, 0), make(ctx, case['a'], 2, 1 if ctx.tier == 'quick' else 2)]
    run(ctx, case, items, True)


@harness('C25', cases=[{'machine': m} for m in ('null', 'default')], bounds='two moves, each with any subset of X Y Z or none, G0 or G1')
def subsets(ctx, case):
    items = []
    for i in range(2):
        g = code(ctx, ctx.choice('k%d' % i, ['G0', 'G1']))
        for l in ctx.subset('n%d' % i, 'XYZ'):
            g.add_parameter(ctx.lib.Word(l, ctx.real('v%d%s' % (i, l), -100, 100)))
        items.append(g)
    run(ctx, case, items, False)


@harness('C25', cases=[{'machine': 'null', 'n': n} for n in range(0, 3)], bounds='up to two codes without motion')
def no_motion(ctx, case):
    run(ctx, case, [code(ctx, ctx.choice('k%d' % i, OTHERS)) for i in range(case['n'])], False)


LONG = [['G0', 'G0', 'G1', 'G1', 'G91', 'G1', 'G80', 'G1', 'G81', 'G81', 'G98'],
        ['G81', 'G90', 'G81', 'G55', 'G83', 'G83', 'G0', 'G83', 'G2', 'G2', 'T1'],
        ['G38.2', 'G38.3', 'G38.3', 'G5', 'G18', 'G5', 'G4 P1', 'G5', 'G33', 'G33', 'G01'],
        ['N5', 'F100', 'G1', 'S5', 'G01', 'M2', 'G1', 'G1', 'G53', 'G0', 'G0']]


@harness('C25', cases=[{'base': i, 'place': p, 'machine': m} for i in range(len(LONG)) for p in range(11) for m in ('null', 'default') if m == 'null' or i == 0],
         bounds='four sequences of eleven codes, any one of them replaced with any of 35; real coordinates')
def long_run(ctx, case):
    kinds = list(LONG[case['base']])
    kinds[case['place']] = ctx.choice('k', sorted(MOVES) + OTHERS)
    run(ctx, case, [make(ctx, k, i) for i, k in enumerate(kinds)], False)
