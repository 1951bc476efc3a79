"""C10 Motion codes move exactly the named axes."""
from symx.registry import harness
from harness.common import code, machine, reals, check_pos

CODES = ['G0', 'G1', 'G2', 'G3', 'G5', 'G5.1', 'G5.2', 'G33', 'G38.2', 'G38.3', 'G38.4', 'G38.5']
EXTRA = {'G2': 'IJKRP', 'G3': 'IJKRP', 'G5': 'IJPQ', 'G5.1': 'IJ', 'G5.2': 'P', 'G33': 'K'}


@harness('C10', cases=lambda tier: [{'code': c, 'dist': d, 'axes': a, 'cs': s, 'unit': u} for c in CODES for d in ('G90', 'G91')
                                    for a in (('XYZ', 'XYZAB') if tier == 'quick' else ('XYZ', 'XYZABCUVW', 'XY', 'UVW'))
                                    for u in (('mm', 'inch') if a == 'XYZ' and c in ('G0', 'G1', 'G2') else ('mm',))
                                    for s in ((1, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9))],
         bounds='12 motion codes (three also on a machine that works in inches), every subset of the machine axes, symbolic offsets, start and coordinates (|v| <= 10000)')
def moves(ctx, case):
    axes = case['axes']
    start, off, tmp = reals(ctx, 's', axes), reals(ctx, 'o', axes), reals(ctx, 't', axes)
    m = machine(ctx, start, cs=case['cs'], cs_offset=off, temp=tmp, axes=axes, setup=[case['dist']], inch=case['unit'] == 'inch')
    g = code(ctx, case['code'])
    named = ctx.subset('n', axes)
    foreign = [a for a in 'XYZABCUVW' if a not in axes][:1]
    vals = reals(ctx, 'v', named)
    for a in named:
        g.add_parameter(ctx.lib.Word(a, vals[a]))
    if ctx.boolean('extra'):
        for l in EXTRA.get(case['code'], ''):
            g.add_parameter(ctx.lib.Word(l, ctx.real('e_' + l, -100, 100)))
        for a in foreign:
            g.add_parameter(ctx.lib.Word(a, ctx.real('f_' + a, -100, 100)))
    before = dict((a, start[a] - off[a] - tmp[a]) for a in axes)
    m.process_gcodes(g)
    exp = {}
    for a in axes:
        if a not in vals:
            exp[a] = before[a]
        elif case['dist'] == 'G90':
            exp[a] = vals[a]
        else:
            exp[a] = before[a] + vals[a]
    ctx.check(set(m.pos.values) == set(axes), 'axes of the work position')
    check_pos(ctx, m.pos, exp, 'work position')
    check_pos(ctx, m.abs_pos, dict((a, exp[a] + off[a] + tmp[a]) for a in axes), 'absolute position')
    for a in named:
        ctx.check_close(g.params[a].value, vals[a], 'code executed is unchanged')


@harness('C10', cases=[{'d': d, 'c1': a, 'c2': b} for d in ('G90', 'G91') for a in ('G0', 'G1', 'G2') for b in ('G0', 'G1', 'G3')],
         bounds='two moves in a row, any subset of XYZ in each, absolute or incremental')
def two_moves(ctx, case):
    start, off = reals(ctx, 's', 'XYZ'), reals(ctx, 'o', 'XYZ')
    m = machine(ctx, start, cs=2, cs_offset=off, setup=[case['d']])
    exp = dict((a, start[a] - off[a]) for a in 'XYZ')
    for i, c in enumerate((case['c1'], case['c2'])):
        g = code(ctx, c)
        for a in ctx.subset('n%d' % i, 'XYZ'):
            v = ctx.real('v%d_%s' % (i, a), -10000, 10000)
            g.add_parameter(ctx.lib.Word(a, v))
            exp[a] = v if case['d'] == 'G90' else exp[a] + v
        m.process_gcodes(g)
        check_pos(ctx, m.pos, exp, 'after move %d' % (i + 1))


NOMOVE = ['G4', 'G17', 'G18', 'G20', 'G21', 'G28', 'G30', 'G40', 'G43', 'G49', 'G53', 'G54', 'G61', 'G64', 'G80', 'G90', 'G91', 'G93',
          'G92', 'G92.1', 'G98', 'G99', 'M0', 'M3', 'M6', 'M8', 'M30', 'F1', 'S1', 'T1', 'N1', 'G10', 'M66', 'M61', 'M50']


@harness('C10', cases=[{'code': c} for c in NOMOVE], bounds='35 codes that are not moves, from any position')
def other_codes_do_not_move(ctx, case):
    start = reals(ctx, 's', 'XYZ')
    m = machine(ctx, start)
    if case['code'] in ('G10', 'G80'):
        g = code(ctx, case['code'])
        for a in ctx.subset('n', 'XY'):
            g.add_parameter(ctx.lib.Word(a, ctx.real('v_' + a, -100, 100)))
    elif case['code'] == 'G4':
        g = code(ctx, 'G4')
        g.add_parameter(ctx.lib.Word('P', ctx.real('p', 0, 100)))
    else:
        g = code(ctx, case['code'])
    m.process_gcodes(g)
    check_pos(ctx, m.abs_pos, start, 'absolute position')


@harness('C10', cases=[{'i': i, 'd': d} for i in (0, 2, 5) for d in ('G90', 'G91')],
         bounds='six moves in a row, one of them any of 12 motions with any subset of XYZ, the distance mode maybe changed at any place')
def many_moves(ctx, case):
    start, off = reals(ctx, 's', 'XYZ'), reals(ctx, 'o', 'XYZ')
    m = machine(ctx, start, cs=3, cs_offset=off, setup=[case['d']])
    exp = dict((a, start[a] - off[a]) for a in 'XYZ')
    absolute = case['d'] == 'G90'
    change = ctx.choice('change', [None, 1, 4])
    for i, (c, axes) in enumerate([('G0', 'Z'), ('G1', 'XY'), ('G2', 'X'), ('G1', 'YZ'), ('G38.2', 'Z'), ('G1', 'XYZ')]):
        if i == change:
            absolute = not absolute
            m.process_gcodes(code(ctx, 'G90' if absolute else 'G91'))
        if i == case['i']:
            c, axes = ctx.choice('code', CODES), ctx.subset('n', 'XYZ')
        g = code(ctx, c)
        for a in axes:
            v = ctx.real('v%d_%s' % (i, a), -10000, 10000)
            g.add_parameter(ctx.lib.Word(a, v))
            exp[a] = v if absolute else exp[a] + v
        m.process_gcodes(g)
        check_pos(ctx, m.pos, exp, 'after move %d' % (i + 1))
    check_pos(ctx, m.abs_pos, dict((a, exp[a] + off[a]) for a in 'XYZ'), 'absolute position at the end')
