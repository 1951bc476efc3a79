"""C14 Execution order is independent of the written order."""
import itertools
from symx.registry import harness
from harness.common import code, machine, reals, state_of, same_state
from harness.tables import WORDS, GROUP, PARAMS, RANK, MOTION

MOVES = {'G1': 'XYZ', 'G0': 'XZ', 'G2': 'XYIJ', 'G81': 'XZR', 'G83': 'YZRQL', 'G73': 'XYZRQ', 'G38.2': 'Z', 'bare': 'XY', 'bare81': 'Y'}


def build(ctx, w, vals):
    if w in ('F100', 'S100'):
        g = code(ctx, w)
        return type(g)(ctx.lib.Word(w[0], vals[w]))
    g = code(ctx, w)
    for l in sorted(PARAMS[w]):
        if (w, l) in vals:
            g.add_parameter(ctx.lib.Word(l, vals[(w, l)]))
    return g


def fresh(ctx, start, off2, off1, tmp, setup):
    m = machine(ctx, None, setup=setup)
    m.state.coord_systems[1].offset.update(**off1)
    m.state.coord_systems[2].offset.update(**off2)
    m.state.offset.update(**tmp)
    m.abs_pos = m.Position(**start)
    return m


def run(ctx, words, move, perms, setup):
    start, o1, o2, t = reals(ctx, 's', 'XYZ'), reals(ctx, 'o', 'XYZ'), reals(ctx, 'p', 'XYZ'), reals(ctx, 't', 'XYZ')
    vals, bare = {}, []
    all_words = list(words)
    motion = None
    if move:
        if move.startswith('bare'):
            motion = 'G81' if move == 'bare81' else 'G1'
            setup = list(setup) + (['G81 X1 Y2 Z-3 R4'] if move == 'bare81' else ['G1 X1'])
            bare = [(l, ctx.real('b_' + l, -100, 100)) for l in MOVES[move]]
        else:
            motion = move
            all_words.append(move)
            for l in MOVES[move]:
                vals[(move, l)] = ctx.integer('m_L', 1, 3) if l == 'L' else ctx.real('m_' + l, -100, 100)
    for w in words:
        if w in ('F100', 'S100'):
            vals[w] = ctx.real('v_' + w, 0, 1000)
        if w == 'G4':
            vals[(w, 'P')] = ctx.real('v_P', 0, 10)
    m1 = fresh(ctx, start, o2, o1, t, setup)
    m2 = fresh(ctx, start, o2, o1, t, setup)
    # reference: one code at a time in the documented order
    if bare:
        # the bare parameters are the active motion's, whatever else the block sets
        ref = build(ctx, motion, {})
        given = dict(bare)
        kept = {'X': 1, 'Y': 2, 'Z': -3, 'R': 4} if motion == 'G81' else {}
        kept.update(given)
        for l, v in sorted(kept.items()):
            ref.add_parameter(ctx.lib.Word(l, v))
        seq = [(RANK[w], build(ctx, w, vals)) for w in words] + [(RANK[motion], ref)]
    else:
        seq = [(RANK[w], build(ctx, w, vals)) for w in all_words]
    for r, g in sorted(seq, key=lambda x: x[0]):
        m2.process_gcodes(g)
    # the block, in some written order
    order = perms(len(all_words))
    gs = [build(ctx, all_words[i], vals) for i in order]
    given = list(gs)
    how = ctx.choice('how', ['gcodes', 'block'])
    if how == 'gcodes':
        m1.process_gcodes(*gs, **({'modal_params': [ctx.lib.Word(l, v) for l, v in bare]} if bare else {}))
    else:
        b = ctx.lib.Block()
        b.gcodes = gs
        b.modal_params = [ctx.lib.Word(l, v) for l, v in bare]
        m1.process_block(b)
    ctx.check(len(gs) == len(given) and all(x is y for x, y in zip(gs, given)), 'the list given is unchanged')
    same_state(ctx, state_of(m1), state_of(m2), 'written order')


NONMOTION = [w for w in WORDS if GROUP[w] != 'motion' and w not in ('O10',)]


@harness('C14', cases=[{'w': w} for w in NONMOTION],
         bounds='each of %d codes with each of nine motions (explicit or bare parameters), both written orders, any state' % len(NONMOTION))
def mode_and_motion(ctx, case):
    move = ctx.choice('move', sorted(MOVES))
    run(ctx, [case['w']], move, lambda n: ctx.choice('order', list(itertools.permutations(range(n)))), [])


SETS = [(['G91', 'G55', 'F100'], 'G1'), (['G90', 'G18', 'G99'], 'G81'), (['G91', 'G99', 'G54'], 'G83'), (['G91', 'G98'], 'bare81'),
        (['G80', 'G91', 'M3'], 'G0'), (['G20', 'G55', 'G91.1'], 'G2'), (['M6', 'T1', 'S100'], 'bare'), (['G4', 'G91', 'M8'], 'G1'),
        (['G93', 'F100', 'S100', 'M4'], None), (['G91', 'G55', 'M30'], 'bare'), (['G19', 'G99', 'G91'], 'G73'),
        (['G90', 'G59.3', 'G61'], 'G38.2'), (['G80', 'G56', 'G90'], None)]


@harness('C14', cases=[{'i': i, 'setup': s} for i in range(len(SETS)) for s in ('G90', 'G91')],
         bounds='13 sets of up to five codes in every written order, from any state in either distance mode')
def blocks(ctx, case):
    words, move = SETS[case['i']]
    run(ctx, words, move, lambda n: ctx.choice('order', list(itertools.permutations(range(n)))), [case['setup']])


@harness('C14', cases=[{'a': w} for w in WORDS],
         bounds='every ordered pair of %d codes: the six comparisons, and sorting with a third, follow the documented order' % len(WORDS))
def documented_order(ctx, case):
    a, b = case['a'], ctx.choice('b', WORDS)
    x, y = code(ctx, a), code(ctx, b)
    ra, rb = RANK[a], RANK[b]
    ctx.check(bool(x < y) == (ra < rb), 'earlier', (a, b))
    ctx.check(bool(x > y) == (ra > rb), 'later', (a, b))
    ctx.check(bool(x <= y) == (ra <= rb), 'not later', (a, b))
    ctx.check(bool(x >= y) == (ra >= rb), 'not earlier', (a, b))
    z = code(ctx, ctx.choice('c', ['F100', 'G4', 'G17', 'G91']))
    rz = RANK['F100' if z.word.letter == 'F' else '%s%g' % (z.word.letter, z.word.value)]
    got = sorted([z, x, y])
    expect = [g for r, i, g in sorted([(rz, 0, z), (ra, 1, x), (rb, 2, y)], key=lambda t: t[:2])]
    ctx.check(all(p is q for p, q in zip(got, expect)), 'sorted: the documented order, then as given', (got, expect))


BIG = [(['F100', 'S100', 'T1', 'M6', 'M3', 'M8', 'G17', 'G91', 'G55', 'G20', 'G64'], 'G1'),
       (['G94', 'F100', 'G96', 'S100', 'M4', 'G4', 'G18', 'G41', 'G43', 'G99', 'G90', 'M30'], 'G81'),
       (['N10', 'M48', 'G92.2', 'M9', 'G19', 'G59.1', 'G91.1', 'G91', 'G98', 'M2'], 'bare')]


@harness('C14', cases=lambda tier: [{'i': i, 'a': a, 'turn': t} for i in range(len(BIG)) for a in range(len(BIG[i][0])) for t in ((0, 4) if tier == 'quick' else (0, 2, 4, 6))],
         bounds='three blocks of ten to thirteen codes in two (thorough: four) arrangements, backwards or not, with any two exchanged; any state')
def big_blocks(ctx, case):
    words, move = BIG[case['i']]

    def arranged(n):
        out = [(k + case['turn']) % n for k in range(n)]
        if ctx.boolean('backwards'):
            out.reverse()
        i, j = case['a'], ctx.choice('b', list(range(n)))
        out[i], out[j] = out[j], out[i]
        return out
    run(ctx, words, move, arranged, [])
