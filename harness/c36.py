"""C36 A machine and the codes it is given share nothing."""
from copy import deepcopy
from symx.registry import harness
from harness.common import code, machine, reals, state_of, same_state
from harness.tables import WORDS, GROUP, KEPT
from harness.c13 import make
from harness.c33 import content, same_content

LINES = ['G81 X{d} Z-1 R2', 'X{d}', 'G1 X{d} F5 S3 T4', 'R{d} X1', 'G91 X{d} M3', 'Y2 X{d}', 'G92 X{d}', 'G64 P{d} G41 D2', 'N5 G18 G55 Z{d}', 'S{d} G96', 'Q{d} Z1']
SETUP = {'default': [], 'cycle': ['G83 X1 Z-2 R3 Q1'], 'inc': ['G91', 'G55', 'G81 X1 Z-2 R3'], 'g1': ['G1 X1']}


def alter(ctx, g, tag):
    """Change a code in place, in one of the ways there are."""
    what = ctx.choice(tag + '_what', ['word', 'value', 'delete', 'new'])
    letters = sorted(g.params)
    if what == 'word':
        g.word.value = '77' if g.word.letter in 'TO' else 77
    elif what == 'value':
        for l in letters:
            g.params[l].value = '77' if l == 'T' else 77
    elif what == 'delete':
        for l in letters:
            del g.params[l]
    else:
        free = [l for l in sorted(g.param_letters) if l not in g.params]
        for l in free[:1] + [l for l in free[1:] if l in g.modal_param_letters][:1]:
            g.add_parameter(ctx.lib.Word(l, '77' if l == 'T' else 77))


def alter_block(ctx, block):
    what = ctx.choice('what', ['words', 'codes', 'bare', 'lists'])
    if what == 'words':
        for w in block.words:
            w.value = '77' if w.letter in 'TO' else 77
    elif what == 'codes':
        for g in block.gcodes:
            for l in g.params:
                g.params[l].value = 77
            g.params.clear()
    elif what == 'bare':
        for w in block.modal_params:
            w.value = 77
    else:
        del block.words[:]
        del block.gcodes[:]
        del block.modal_params[:]


def block_content(b):
    return [(w.letter, w.value) for w in b.words], [content(g) for g in b.gcodes], [(w.letter, w.value) for w in b.modal_params]


def same_block(ctx, a, b, label):
    for i in (0, 2):
        ctx.check(len(a[i]) == len(b[i]), label + ': number of words', (a[i], b[i]))
        for x, y in zip(a[i], b[i]):
            ctx.check(x[0] == y[0] and x[1] == y[1], label + ': words', (x, y))
    ctx.check(len(a[1]) == len(b[1]), label + ': number of codes', (a[1], b[1]))
    for x, y in zip(a[1], b[1]):
        same_content(ctx, x, y, label)


def start(ctx, setup):
    m = machine(ctx, reals(ctx, 's', 'XYZ', -100, 100), cs_offset=reals(ctx, 'o', 'XYZ', -100, 100), temp=reals(ctx, 't', 'X', -100, 100), setup=SETUP[setup])
    return m


@harness('C36', cases=[{'code': w, 'how': h} for w in WORDS for h in ('executed', 'set', 'named') if h == 'executed' or GROUP[w]],
         bounds='any code with its parameters, any values, executed, set as a mode or assigned to a group; then changed in place in one of four ways')
def codes_given(ctx, case):
    m = start(ctx, 'default')
    g = make(ctx, case['code'], 'c')
    for l in sorted('XZR'):
        if l in g.param_letters and l not in g.params and ctx.boolean('all'):
            g.add_parameter(ctx.lib.Word(l, ctx.real('v_' + l, 1, 100)))
    before = content(g)
    if case['how'] == 'executed':
        m.process_gcodes(g)
    elif case['how'] == 'set':
        m.set_mode(g)
    else:
        setattr(m.mode, GROUP[case['code']], g)
    same_content(ctx, content(g), before, 'the code given is not changed')
    state = state_of(m)
    alter(ctx, g, 'a')
    same_state(ctx, state_of(m), state, 'the machine, when the code is changed later')
    if case['code'] in ('G81', 'G83', 'G1', 'G0') and case['how'] != 'named':
        n = start(ctx, 'default')       # and what it does next is what another machine would do
        h = make(ctx, case['code'], 'c')
        for l in sorted('XZR'):
            if l in h.param_letters and l not in h.params and ctx.boolean('all'):
                h.add_parameter(ctx.lib.Word(l, ctx.real('v_' + l, 1, 100)))
        if case['how'] == 'executed':
            n.process_gcodes(h)
        else:
            n.set_mode(h)
        for x in (m, n):
            x.process_str('Y5')
        same_state(ctx, state_of(m), state_of(n), 'the machine goes on as if nothing was changed')


def line_cases(tier):
    return [{'line': l, 'setup': s, 'how': h} for l in LINES for s in sorted(SETUP) for h in ('block', 'effective')]


@harness('C36', cases=line_cases, bounds='eleven lines with a symbolic number, on machines in four states: executed, or completed by the machine; then the block or the codes handed out are changed in place')
def blocks_given(ctx, case):
    t = case['line']
    t = t[:t.index('{')] + ctx.str(ctx.decimal('d', 1, 1, 9)) + t[t.index('}') + 1:]
    m = start(ctx, case['setup'])
    b = ctx.lib.Line(t).block
    before = block_content(b)
    state = state_of(m)
    if case['how'] == 'effective':
        gs, e = ctx.attempt(lambda: m.block_modal_gcodes(b))
        same_state(ctx, state_of(m), state, 'completing a block does nothing')
        same_block(ctx, block_content(b), before, 'the block given is not changed')
        if e is not None:
            return
        for i, g in enumerate(gs):
            if all(g is not x for x in b.gcodes) or i == 0:
                alter(ctx, g, 'a%d' % i)
        same_state(ctx, state_of(m), state, 'the machine, when a code it handed out is changed')
        return
    v, e = ctx.attempt(lambda: m.process_block(b))
    same_block(ctx, block_content(b), before, 'the block given is not changed')
    if e is not None:
        return
    state = state_of(m)
    alter_block(ctx, b)
    same_state(ctx, state_of(m), state, 'the machine, when the block is changed later')


@harness('C36', cases=[{'unit': u, 'what': w} for u in (0, 1) for w in ('pos', 'moved', 'work', 'abs', 'given', 'values', 'coords')],
         bounds='positions a machine was given or hands out, any coordinates and offsets; changed in place')
def positions(ctx, case):
    m = machine(ctx, reals(ctx, 's', 'XYZ', -100, 100), cs_offset=reals(ctx, 'o', 'XYZ', -100, 100), temp=reals(ctx, 't', 'XYZ', -100, 100), inch=bool(case['unit']))
    if ctx.boolean('selected'):
        m.process_str('G57')
    vals, v = reals(ctx, 'p', 'XYZ', -100, 100), ctx.real('v', -100, 100)
    p = m.Position(**vals)
    coords = dict(vals)
    if case['what'] == 'pos':
        p = m.pos
    elif case['what'] == 'given':
        m.pos = p
    elif case['what'] == 'moved':
        m.pos = p
        p = m.pos
    elif case['what'] == 'work':
        p = m.abs2work(m.abs_pos)
    elif case['what'] == 'abs':
        p = m.work2abs(m.pos)
    elif case['what'] == 'values':
        coords = m.pos.values
    else:
        m.move_to(**coords)
    state = state_of(m)
    axis = ctx.choice('axis', 'XYZ')
    how = ctx.choice('how', ['set', 'update', 'axes', 'unit'])
    coords[axis] = v
    if how == 'set':
        setattr(p, axis, v)
    elif how == 'update':
        p.update(**{axis: v})
    elif how == 'axes':
        p.axes.discard(axis)
    else:
        p.unit = ctx.lib.GCodeUseInches.unit_id if case['unit'] == 0 else ctx.lib.GCodeUseMillimeters.unit_id
    same_state(ctx, state_of(m), state, 'the machine, when a position is changed')
    ctx.check(m.abs_pos.axes == set('XYZ') and m.pos.axes == set('XYZ') and m.axes == set('XYZ'), 'its axes')
    ctx.check(m.abs_pos.unit == m.Position.default_unit, 'its unit')
