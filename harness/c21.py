"""C21 A linearized arc is a connected path ending at the arc's end point."""
from symx.registry import harness
from harness.common import code, check_pos
from harness.arcs import Arc, arc_cases, ARCS, DOMAIN


@harness('C21', cases=lambda tier: arc_cases(tier), ceil_bound=12,
         bounds=ARCS + DOMAIN % '12 wedges' + 'three methods; absolute distance mode')
def absolute(ctx, case):
    a = Arc(ctx, case)
    out, pts = a.lines()
    ctx.check(len(out) > 0, 'at least one line', out)
    m = ctx.lib.machine.NullMachine()
    m.abs_pos = m.Position(**a.start)
    m.process_gcodes(code(ctx, 'G90'), code(ctx, case['plane']))
    for h in out:
        ctx.check(type(h) is ctx.lib.GCodeLinearMove, 'linear moves only', h)
    if case['plane'] == 'G17' and len(out) < 5:
        for h in out:
            m.process_gcodes(h)
        check_pos(ctx, m.pos, a.end, 'executed, the lines end at the end of the arc')
    for ax in 'XYZ':
        ctx.check_close(pts[-1][ax], a.end[ax], 'ends at the end of the arc: ' + ax)
    for l in sorted(a.g.params):
        ctx.check(a.g.params[l].letter == l, 'the arc given is not modified')


@harness('C21', cases=lambda tier: [dict(c, places=(3, 3, 2, 4, 0)[i % 5]) for i, c in enumerate(arc_cases(tier, ('G91',), ('rel', 'R')))], ceil_bound=6,
         bounds=ARCS + DOMAIN % '6 wedges' + 'three methods; incremental distance mode; rounded to 0, 2, 3 or 4 decimals')
def incremental(ctx, case):
    a = Arc(ctx, case)
    out, pts = a.lines()
    ctx.check(len(out) > 0, 'at least one line', out)
    for h in out:
        ctx.check(type(h) is ctx.lib.GCodeLinearMove, 'linear moves only', h)
    tol = 0.5 * 10 ** -case['places'] + 1e-6
    for ax in 'XYZ':
        ctx.check_close(pts[-1][ax], a.end[ax], 'ends at the end of the arc, to half of the last decimal: ' + ax, tol)


@harness('C21', cases=[{'plane': p, 'code': c, 's': 'ne', 'e': 'sw', 'form': f, 'dist': d, 'method': m, 'helix': True, 'arcmode': f == 'abs'}
                       for c in ('G2', 'G3') for f in ('rel', 'R', 'abs') for p, d, m in (('none', 'G90', 'm'), ('G17', 'none', 'i'), ('G17', 'G90', 'none'), ('none', 'none', 'none'))], ceil_bound=6,
         bounds='arguments left to their defaults; ' + DOMAIN % '6 wedges')
def defaults(ctx, case):
    a = Arc(ctx, case)
    out, pts = a.lines()
    for ax in 'XYZ':
        ctx.check_close(pts[-1][ax], a.end[ax], 'ends at the end of the arc: ' + ax)
