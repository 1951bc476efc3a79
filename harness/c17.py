"""C17 Copies of machines."""
from copy import copy, deepcopy
from symx.registry import harness
from harness.common import code, codes, machine, reals, state_of, same_state, CS_WORDS

MODES = [[], ['G91', 'G55'], ['G81 X1 Z-1 R2', 'G99', 'G18'], ['G80', 'G20', 'G59.3', 'M3'], ['G2 X1 I2', 'F100', 'G93', 'T2']]
AFTER = ['G0 X1 Y2', 'G91', 'G56', 'G1 Z-4', 'G81 X3 Y4 Z-5 R6', 'M3', 'F300', 'G20', 'G80', 'G18']


def state(ctx, case):
    axes = case.get('axes', 'XYZ')
    m = machine(ctx, setup=MODES[case['mode']], axes=axes, inch=case.get('unit') == 'inch')
    cur = m.state.cur_coord_sys
    for i in (1, 2, cur):
        m.state.coord_systems[i].offset.update(**reals(ctx, 'o%d' % i, axes))
    m.state.offset.update(**reals(ctx, 't', axes))
    m.abs_pos = m.Position(**reals(ctx, 's', axes))
    m.abs_range_min = m.Position(**reals(ctx, 'lo', axes, -20000, -10000))
    m.abs_range_max = m.Position(**reals(ctx, 'hi', axes, 10000, 20000))
    return m


@harness('C17', cases=[{'mode': i, 'axes': a, 'unit': u} for i in range(len(MODES)) for a, u in (('XYZ', 'mm'), ('XYZABC', 'mm'), ('XYZ', 'inch'))],
         bounds='five mode histories, two axis sets, a machine in inches, copy or deepcopy, any offsets and positions; ten codes executed on either, or parts of it changed')
def machine_copy(ctx, case):
    m = state(ctx, case)
    before = state_of(m)
    work = dict(m.pos.values)
    c = deepcopy(m) if ctx.boolean('deep') else copy(m)
    ctx.check(c is not m and type(c) is type(m), 'class of the copy')
    same_state(ctx, state_of(m), before, 'copying changes nothing')
    same_state(ctx, state_of(c), before, 'copy')
    for a in work:
        ctx.check_close(c.pos.values[a], work[a], 'work position of the copy')
    ctx.check(set(c.axes) == set(m.axes), 'axes of the copy')
    for n in ('pos', 'abs_pos', 'abs_range_min', 'abs_range_max'):
        ctx.check(getattr(c, n).unit == getattr(m, n).unit, 'unit of the copy: ' + n, getattr(c, n).unit)
    ctx.check(c.Position().unit == m.Position().unit, 'unit of positions made by the copy')
    a, b = (m, c) if ctx.boolean('on_original') else (c, m)
    w = ctx.choice('then', AFTER + ['offset', 'parameter', 'temporary', 'position', 'mode', 'range'])
    if w == 'offset':
        a.state.coord_systems[a.state.cur_coord_sys].offset.update(X=5.0)
        a.state.coord_systems[9].offset.update(Y=7.0)
    elif w == 'temporary':
        a.state.offset.update(Y=5.0)
    elif w == 'parameter':
        for g in a.mode.gcodes:
            for k in sorted(g.params):
                g.params[k].value = 12345.0
    elif w == 'position':
        a.abs_pos.update(X=123456.0)
    elif w == 'range':
        a.abs_range_max.update(X=123456.0)
        a.abs_range_min.update(X=-123456.0)
    elif w == 'mode':
        a.mode.motion = None
        if a.mode.plane_selection:
            a.mode.plane_selection = code(ctx, 'G19')
    else:
        a.process_gcodes(*codes(ctx, w))
    same_state(ctx, state_of(b), before, 'the other machine')
    for k in work:
        ctx.check_close(b.pos.values[k], work[k], 'work position of the other machine')


@harness('C17', cases=[{'mode': i, 'then': t} for i in range(len(MODES)) for t in AFTER],
         bounds='five mode histories; original and copy execute the same code alike')
def copy_behaves_alike(ctx, case):
    m = state(ctx, case)
    c = deepcopy(m) if ctx.boolean('deep') else copy(m)
    for x in (m, c):
        x.process_gcodes(*codes(ctx, case['then']))
        g = code(ctx, 'G1')
        g.add_parameter(ctx.lib.Word('X', ctx.real('move_%s' % 'X', -100, 100)) if x is m else ctx.lib.Word('X', m_val(ctx)))
        x.process_gcodes(g)
    same_state(ctx, state_of(c), state_of(m), 'after executing the same codes')


def m_val(ctx):
    return ctx.real('move_X', -100, 100)


@harness('C17', cases=[{'mode': i} for i in range(len(MODES))], bounds='five mode histories; state and mode copied on their own')
def part_copies(ctx, case):
    m = state(ctx, case)
    before = state_of(m)
    f = deepcopy if ctx.boolean('deep') else copy
    s, d = f(m.state), f(m.mode)
    ctx.check(s.cur_coord_sys == before['cur'], 'active coordinate system of a copied state', s.cur_coord_sys)
    for i in range(1, 10):
        got = s.coord_systems[i].offset.values
        ctx.check(set(got) == set(before['cs'][i]), 'axes of a copied coordinate system', got)
        for a in got:
            ctx.check_close(got[a], before['cs'][i][a], 'offset in a copied state')
    for a in before['temp']:
        ctx.check_close(s.offset.values[a], before['temp'][a], 'temporary offset in a copied state')
    m2 = machine(ctx)
    m2.mode = d
    same = state_of(m2)['mode']
    ctx.check(set(same) == set(before['mode']), 'groups of a copied mode', same)
    for k in same:
        ctx.check(same[k] == before['mode'][k], 'code of a copied mode', (same[k], before['mode'][k]))
    cs = f(m.state.coord_systems[1])
    cs.offset.update(X=777.0)
    s.coord_systems[2].offset.update(X=888.0)
    s.offset.update(X=999.0)
    d.motion = None
    same_state(ctx, state_of(m), before, 'the original')


@harness('C17', cases=[{'ignore': i, 'class': c} for i in (True, False) for c in (True, False)], bounds='machines told to ignore words or not, or of a class that does; any position and values')
def ignoring(ctx, case):
    M = type('Other', (ctx.lib.Machine,), {'ignore_invalid_modal': case['class']})
    m = M()
    m.process_gcodes(code(ctx, 'G1 X1'))
    m.abs_pos = m.Position(**reals(ctx, 's', 'XYZ'))
    m.ignore_invalid_modal = case['ignore']
    c = deepcopy(m) if ctx.boolean('deep') else copy(m)
    c = copy(c) if ctx.boolean('again') else c
    words = [ctx.lib.Word('X', ctx.real('x', -100, 100)), ctx.lib.Word('H', 1.0)]
    if case['ignore']:
        for x in (m, c):
            x.process_gcodes(modal_params=list(words))
    else:
        for x in (m, c):
            ctx.must_raise(lambda: x.process_gcodes(modal_params=list(words)), ctx.lib.MachineInvalidState, 'the copy refuses what the original refuses')
    same_state(ctx, state_of(c), state_of(m), 'the copy does as the original')
    c.ignore_invalid_modal = not case['ignore']
    ctx.check(m.ignore_invalid_modal == case['ignore'], 'the original is as it was')
