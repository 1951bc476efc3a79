"""C18 An expanded canned cycle ends where the cycle itself ends (and the parts C19 shares)."""
from symx.registry import harness
from harness.common import code, check_pos

CYCLES = {'G73': 'Q', 'G81': '', 'G82': 'P', 'G83': 'Q', 'G85': '', 'G89': 'P'}


def setup(ctx, case, pecks):
    """-> (code, start {axis: value}, parameters {letter: value})"""
    if case.get('eighths'):     # (so that sums are exact in floating point too)
        level = lambda n, lo, hi: ctx.integer(n, lo * 8, hi * 8) / 8.0
    else:
        level = ctx.real
    start = dict((a, (level if a == 'Z' else ctx.real)('s_' + a, -1000, 1000)) for a in 'XYZ')
    p = {}
    for a in case['named']:
        p[a] = ctx.real('v_' + a, -1000, 1000)
    p['Z'] = level('v_Z', -1000, 1000)
    p['R'] = level('v_R', -1000, 1000)
    hole = p['R'] - p['Z'] if case['dist'] == 'G90' else -p['Z']
    ctx.assume(hole >= 0)
    for l in CYCLES[case['code']]:
        p[l] = ctx.real('v_' + l, 0.001, 1000) if not (l == 'Q' and case.get('eighths')) else level('v_Q', 0, 1000)
        ctx.assume(p[l] > 0)
        if l == 'Q':
            if (ctx.tier == 'thorough' or case['L'] is None) and ctx.boolean('negative_q'):
                p[l] = -p[l]
            ctx.assume(hole <= abs(p[l]) * pecks)
        elif case.get('no_p'):
            p.pop(l)
    if case['L'] is not None:
        p['L'] = case['L']
    g = code(ctx, case['code'])
    for l in sorted(p):
        g.add_parameter(ctx.lib.Word(l, p[l]))
    return g, start, p


def modes(ctx, case):
    return dict((k, code(ctx, case[k]) if case[k] not in (None, 'none') else None) for k in ('plane', 'dist', 'ret'))


def machine_at(ctx, case, start):
    m = ctx.lib.machine.NullMachine()
    m.process_gcodes(code(ctx, 'G21'), *[x for x in modes(ctx, case).values() if x is not None])
    m.abs_pos = m.Position(**start)
    return m


def expand(ctx, case, g, start, axes='XYZ'):
    md = modes(ctx, case)
    pos = ctx.lib.machine.Position(axes=axes, **start)
    return ctx.lib.transform.simplify_canned_cycle(g, pos, plane=md['plane'], dist_mode=md['dist'], retract_mode=md['ret'], axes=axes)


def cycle_cases(tier, none_modes=True):
    out = []
    for c in sorted(CYCLES):
        for d in ('G90', 'G91'):
            for r in ('G98', 'G99'):
                for l in (None, 2) if tier == 'quick' else (None, 1, 2, 3):
                    out.append({'code': c, 'plane': 'G17', 'dist': d, 'ret': r, 'L': l, 'named': 'XY'})
        out.append({'code': c, 'plane': 'none', 'dist': 'none' if none_modes else 'G90', 'ret': 'none', 'L': 1, 'named': 'XY'})
    for d in ('G90', 'G91'):
        for named in ('', 'X', 'Y'):
            for r in ('G98', 'G99'):
                out.append({'code': 'G81', 'plane': 'G17', 'dist': d, 'ret': r, 'L': 2, 'named': named})
        for l in (0, 3, -1):
            out.append({'code': 'G81', 'plane': 'G17', 'dist': d, 'ret': 'G99', 'L': l, 'named': 'XY'})
    return out


@harness('C18', cases=cycle_cases, bounds='six cycles, both distance modes, both return modes, L up to 3, any subset of X Y; holes of up to 3 (thorough: 5) pecks; any start and values')
def ends_same(ctx, case):
    case = dict(case)
    if case['dist'] == 'none':
        real_case = dict(case, dist='G90', ret='G98')
    else:
        real_case = case
    g, start, p = setup(ctx, real_case, 3 if ctx.tier == 'quick' else 5)
    ref = machine_at(ctx, real_case, start)
    ref.process_gcodes(g)
    m = machine_at(ctx, real_case, start)
    n = 0
    for h in expand(ctx, case, g, start):
        n += 1
        ctx.check(n <= 100 * max(1, case['L'] or 1), 'the moves come to an end')
        ctx.check(not isinstance(h, ctx.lib.GCodeCannedCycle), 'only simple codes', h)
        m.process_gcodes(h)
    check_pos(ctx, m.pos, dict((a, getattr(ref.pos, a)) for a in 'XYZ'), 'position after the moves')
    ctx.check(set(g.params) == set(p), 'the cycle given is not modified')
    for l in sorted(p):
        ctx.check_close(g.params[l].value, p[l], 'the cycle given is not modified')


@harness('C18', cases=[{'code': c, 'plane': 'G17', 'dist': d, 'ret': r, 'L': 2, 'named': 'XY'} for c in ('G81', 'G83') for d in ('G90', 'G91') for r in ('G98', 'G99')],
         bounds='machine with more axes, an active coordinate system and offsets; two repeats')
def on_a_machine(ctx, case):
    """As a program would: the start is the machine's position, the axes are the machine's."""
    g, start, p = setup(ctx, case, 2)
    off = dict((a, ctx.real('o_' + a, -100, 100)) for a in 'XZ')
    ms = []
    for i in range(2):
        m = machine_at(ctx, case, start)
        m.process_gcodes(code(ctx, 'G55'))
        m.state.coord_systems[2].offset.update(**off)
        m.pos = m.Position(**start)
        ms.append(m)
    ref, m = ms
    ref.process_gcodes(g)
    out = ctx.lib.transform.simplify_canned_cycle(g, m.pos, plane=m.mode.plane_selection, dist_mode=m.mode.distance,
                                                  retract_mode=m.mode.canned_cycles_return, axes=m.axes)
    for h in list(out):
        m.process_gcodes(h)
    for a in 'XYZ':
        ctx.check_close(getattr(m.pos, a), getattr(ref.pos, a), 'position after the moves: ' + a)
        ctx.check_close(getattr(m.abs_pos, a), getattr(ref.abs_pos, a), 'absolute position after the moves: ' + a)
