"""C12 Motion range."""
from symx.registry import harness
from harness.common import code, machine, reals, check_posdict, check_pos


def setup(ctx, axes, dist, cs=3, unit='mm'):
    start, off, tmp = reals(ctx, 's', axes), reals(ctx, 'o', axes), reals(ctx, 't', axes)
    lo, hi = reals(ctx, 'lo', axes), reals(ctx, 'hi', axes)
    for a in axes:
        ctx.assume(lo[a] <= start[a])
        ctx.assume(start[a] <= hi[a])
    m = machine(ctx, start, cs=cs, cs_offset=off, temp=tmp, axes=axes, setup=[dist], inch=unit == 'inch')
    m.abs_range_min = m.Position(**lo)
    m.abs_range_max = m.Position(**hi)
    return m, start, off, tmp, lo, hi


def check_range(ctx, m, visited, lo, hi, axes):
    ctx.check(set(m.abs_range_min.axes) == set(axes) and set(m.abs_range_max.axes) == set(axes), 'axes of the range', (m.abs_range_min, m.abs_range_max))
    for a in axes:
        mn, mx = getattr(m.abs_range_min, a), getattr(m.abs_range_max, a)
        for v in visited + [lo]:
            ctx.check(ctx.le(mn, v[a]), 'minimum encloses')
        for v in visited + [hi]:
            ctx.check(ctx.le(v[a], mx), 'maximum encloses')
        ctx.check(ctx.Or(*[ctx.close(mn, v[a]) for v in visited + [lo]]), 'minimum is not lower than needed')
        ctx.check(ctx.Or(*[ctx.close(mx, v[a]) for v in visited + [hi]]), 'maximum is not higher than needed')
        cur = getattr(m.abs_pos, a)
        ctx.check(ctx.And(ctx.le(mn, cur), ctx.le(cur, mx)), 'current position is enclosed')


@harness('C12', cases=[{'code': c, 'dist': d, 'axes': a, 'unit': u} for u in ('mm', 'inch') for c in ('G0', 'G1', 'G2', 'G38.2', 'pos') for d in ('G90', 'G91')
                       for a in ('XYZ', 'XY', 'XYZA')] +
         [{'code': c, 'dist': d, 'axes': 'XZBCUVW', 'unit': 'mm', 'few': True} for c in ('G0', 'G1', 'pos') for d in ('G90', 'G91')],
         bounds='any named axes of XY, XYZ or XYZA, and any one or all of XZBCUVW; one move on a machine in millimetres or inches from any state whose range encloses its position (inductive step); any offsets')
def step(ctx, case):
    axes = case['axes']
    m, start, off, tmp, lo, hi = setup(ctx, axes, case['dist'], unit=case['unit'])
    named = ctx.subset('n', axes) if not case.get('few') else ctx.choice('n', list(axes) + [axes])
    vals = reals(ctx, 'v', named)
    new = dict(start)
    if case['code'] == 'pos':
        p = m.pos
        p.update(**vals)
        m.pos = p
        for a in named:
            new[a] = vals[a] + off[a] + tmp[a]
    else:
        g = code(ctx, case['code'])
        for a in named:
            g.add_parameter(ctx.lib.Word(a, vals[a]))
            new[a] = vals[a] + off[a] + tmp[a] if case['dist'] == 'G90' else start[a] + vals[a]
        m.process_gcodes(g)
    check_pos(ctx, m.abs_pos, new, 'position')
    check_range(ctx, m, [new], lo, hi, axes)


@harness('C12', cases=[{'code': c, 'dist': d, 'L': l, 'unit': u} for u in ('mm', 'inch') for c in ('G81', 'G83', 'G73') for d in ('G90', 'G91') for l in (None, 1, 2, 3)],
         bounds='canned cycles with up to three repeats from any state; every intermediate position enclosed')
def cycle_step(ctx, case):
    m, start, off, tmp, lo, hi = setup(ctx, 'XYZ', case['dist'], unit=case['unit'])
    g = code(ctx, case['code'])
    vals = reals(ctx, 'v', 'XYR', -100, 100)
    for k in 'XYR':
        g.add_parameter(ctx.lib.Word(k, vals[k]))
    g.add_parameter(ctx.lib.Word('Z', ctx.real('z', -1000, -200)))
    if case['L'] is not None:
        g.add_parameter(ctx.lib.Word('L', case['L']))
    m.process_gcodes(g)
    pts, cur = [], dict(start)
    for i in range(case['L'] or 1):
        cur = dict(cur)
        for a in 'XY':
            cur[a] = vals[a] + off[a] + tmp[a] if case['dist'] == 'G90' else cur[a] + vals[a]
        pts.append(cur)
    check_range(ctx, m, pts, lo, hi, 'XYZ')


@harness('C12', cases=[{'mode': m} for m in ('G90', 'G91')], bounds='fresh machine; up to two moves')
def from_start(ctx, case):
    m = machine(ctx, setup=[case['mode']])
    for r in (m.abs_range_min, m.abs_range_max):
        check_pos(ctx, r, {'X': 0, 'Y': 0, 'Z': 0}, 'range of a fresh machine')
    pts, cur = [], {'X': 0, 'Y': 0, 'Z': 0}
    for i in range(2):
        vals = reals(ctx, 'v%d' % i, ctx.subset('n%d' % i, 'XY'))
        g = code(ctx, 'G1')
        cur = dict(cur)
        for a, v in vals.items():
            g.add_parameter(ctx.lib.Word(a, v))
            cur[a] = v if case['mode'] == 'G90' else cur[a] + v
        m.process_gcodes(g)
        pts.append(cur)
        check_range(ctx, m, pts, {'X': 0, 'Y': 0, 'Z': 0}, {'X': 0, 'Y': 0, 'Z': 0}, 'XYZ')


@harness('C12', cases=[{'code': c} for c in ('G55', 'G54', 'G17', 'G91', 'M3', 'F1', 'G80', 'G4', 'G92', 'G20', 'G43')],
         bounds='11 codes that are not moves')
def not_moves(ctx, case):
    m, start, off, tmp, lo, hi = setup(ctx, 'XYZ', 'G90')
    m.process_gcodes(code(ctx, case['code']))
    check_pos(ctx, m.abs_range_min, lo, 'minimum')
    check_pos(ctx, m.abs_range_max, hi, 'maximum')


@harness('C12', cases=[{'mode': m, 'n': n, 'unit': u} for m in ('G90', 'G91') for n in (4, 7) for u in ('mm', 'inch')],
         bounds='fresh machine; 4 or 7 moves of X, Y or both, an offset set half way, any values')
def many_moves(ctx, case):
    m = machine(ctx, setup=[case['mode']], inch=case['unit'] == 'inch')
    pts, cur, off = [], {'X': 0, 'Y': 0, 'Z': 0}, 0
    zero = dict(cur)
    for i in range(case['n']):
        if i == case['n'] // 2:
            off = ctx.real('off', -100, 100)
            m.process_gcodes(code(ctx, 'G56'))
            m.state.coord_systems[3].offset.update(X=off)
        axes = ('X', 'Y', 'XY', 'YZ')[i % 4]
        vals = reals(ctx, 'v%d' % i, axes)
        g = code(ctx, ('G1', 'G0', 'G2', 'G1')[i % 4])
        cur = dict(cur)
        for a, v in vals.items():
            g.add_parameter(ctx.lib.Word(a, v))
            cur[a] = (v + (off if a == 'X' else 0)) if case['mode'] == 'G90' else cur[a] + v
        m.process_gcodes(g)
        pts.append(cur)
        check_pos(ctx, m.abs_pos, cur, 'position')
    check_range(ctx, m, pts, zero, zero, 'XYZ')
