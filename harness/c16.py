"""C16 Canned cycles executed by the machine."""
from symx.registry import harness
from harness.common import code, machine, reals, check_pos, PLANES

CYCLES = {'G73': 'Q', 'G81': '', 'G82': 'P', 'G83': 'Q', 'G85': '', 'G89': 'P'}


@harness('C16', cases=[{'code': c, 'plane': p, 'dist': d, 'ret': r, 'L': l} for c in sorted(CYCLES) for p in ('G17', 'G18', 'G19', 'none')
                       for d in ('G90', 'G91') for r in ('G98', 'G99', 'none') for l in (None, 0, -1, 1, 2, 3)],
         bounds='six cycles, three planes or none, L missing, -1 to 3; any subset of words, any offsets and values')
def cycle(ctx, case):
    in1, in2, nrm = PLANES[case['plane'] if case['plane'] != 'none' else 'G17']
    start, off, tmp = reals(ctx, 's', 'XYZ'), reals(ctx, 'o', 'XYZ'), reals(ctx, 't', 'XYZ')
    m = ctx.lib.machine.NullMachine()
    m.process_gcodes(code(ctx, 'G57'))
    for t in (case['plane'], case['dist'], case['ret']):
        if t != 'none':
            m.process_gcodes(code(ctx, t))
    m.state.coord_systems[4].offset.update(**off)
    m.state.offset.update(**tmp)
    m.abs_pos = m.Position(**start)
    g = code(ctx, case['code'])
    named = ctx.subset('n', (in1, in2)) if ctx.boolean('some') else [in1, in2]
    vals = reals(ctx, 'v', named)
    for a in named:
        g.add_parameter(ctx.lib.Word(a, vals[a]))
    R = ctx.real('R', -100, 100)
    g.add_parameter(ctx.lib.Word(nrm, ctx.real('depth', -1000, 1000)))
    has_r = ctx.boolean('has_R')
    if has_r:
        g.add_parameter(ctx.lib.Word('R', R))
    for l in CYCLES[case['code']]:
        g.add_parameter(ctx.lib.Word(l, ctx.real('x_' + l, 1, 10)))
    if case['L'] is not None:
        g.add_parameter(ctx.lib.Word('L', case['L']))
    m.process_gcodes(g)
    n = max(1, case['L'] or 1)
    exp = dict((a, start[a] - off[a] - tmp[a]) for a in 'XYZ')
    for a in named:
        exp[a] = vals[a] if case['dist'] == 'G90' else exp[a] + vals[a] * n
    if case['ret'] == 'G99' and has_r:
        exp[nrm] = R if case['dist'] == 'G90' else exp[nrm] + R
    check_pos(ctx, m.pos, exp, 'position after the cycle')
    if has_r:
        ctx.check_close(g.R, R, 'the code executed is unchanged')


UVW = {'G17.1': ('U', 'V', 'W'), 'G18.1': ('W', 'U', 'V'), 'G19.1': ('V', 'W', 'U')}


@harness('C16', cases=[{'code': c, 'plane': p, 'dist': d, 'ret': r, 'L': l, 'axes': a} for c in ('G73', 'G81', 'G89') for p in sorted(UVW) + ['G18']
                       for d in ('G90', 'G91') for r in ('G98', 'G99') for l in (None, 2) for a in ('XYZUVW', 'XYZ', 'UVWX')],
         bounds='three cycles in the planes of the U V W axes (and one other), on machines with and without these axes; any values')
def parallel_axes(ctx, case):
    nrm = UVW.get(case['plane'], 'ZXY')[2]
    axes = case['axes']
    start = reals(ctx, 's', axes)
    m = machine(ctx, start, axes=axes, setup=[case['plane'], case['dist'], case['ret']])
    g = code(ctx, case['code'])
    vals = reals(ctx, 'v', [a for a in 'XYZUVW' if a in axes and a != nrm])
    for a in sorted(vals):
        g.add_parameter(ctx.lib.Word(a, vals[a]))
    if ctx.boolean('depth'):
        g.add_parameter(ctx.lib.Word(nrm, ctx.real('depth', -1000, 1000)))
    R = ctx.real('R', -100, 100)
    g.add_parameter(ctx.lib.Word('R', R))
    if case['L'] is not None:
        g.add_parameter(ctx.lib.Word('L', case['L']))
    for l in CYCLES[case['code']]:
        g.add_parameter(ctx.lib.Word(l, ctx.real('x_' + l, 1, 10)))
    m.process_gcodes(g)
    exp = dict(start)
    for a in vals:
        exp[a] = vals[a] if case['dist'] == 'G90' else start[a] + vals[a] * (case['L'] or 1)
    if case['ret'] == 'G99' and nrm in axes:
        exp[nrm] = R if case['dist'] == 'G90' else start[nrm] + R
    check_pos(ctx, m.pos, exp, 'position after the cycle')


@harness('C16', cases=[{'code': c, 'plane': p, 'dist': d, 'ret': r} for c in sorted(CYCLES) for p in ('G17', 'G18', 'G19', 'none')
                       for d in ('G90', 'G91') for r in ('G98', 'G99')],
         bounds='six cycles repeated any number of times of 4, 7, 12 and 30, and in sequences of three; any values')
def long_runs(ctx, case):
    in1, in2, nrm = PLANES[case['plane'] if case['plane'] != 'none' else 'G17']
    exp = reals(ctx, 's', 'XYZ')
    m = machine(ctx, exp, setup=[t for t in (case['plane'], case['dist'], case['ret']) if t != 'none'])
    for i in range(3):
        g = code(ctx, case['code'])
        vals = reals(ctx, 'v%d' % i, (in1, in2, 'R'), -100, 100)
        for a in vals:
            g.add_parameter(ctx.lib.Word(a, vals[a]))
        g.add_parameter(ctx.lib.Word(nrm, ctx.real('depth%d' % i, -1000, -200)))
        for l in CYCLES[case['code']]:
            g.add_parameter(ctx.lib.Word(l, ctx.real('x_' + l, 1, 10)))
        n = ctx.choice('L', [4, 7, 12, 30]) if i == 0 else 1 if i == 1 else 5
        if i != 1:
            g.add_parameter(ctx.lib.Word('L', n))
        m.process_gcodes(g)
        exp = dict(exp)
        for a in (in1, in2):
            exp[a] = vals[a] if case['dist'] == 'G90' else exp[a] + vals[a] * n
        if case['ret'] == 'G99':
            exp[nrm] = vals['R'] if case['dist'] == 'G90' else exp[nrm] + vals['R']
        check_pos(ctx, m.pos, exp, 'position after the cycle')
