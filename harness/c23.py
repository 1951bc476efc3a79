"""C23 A linearized arc follows the commanded arc."""
import math

from symx.registry import harness
from harness.arcs import Arc, arc_cases, ARCS, DOMAIN


def follows(ctx, case):
    a = Arc(ctx, case)
    out, pts = a.lines()
    path = a.path(pts)
    _, _, normal = a.axes
    sign = 1 if case['code'] == 'G3' else -1
    total = 0.0
    for p, q, pt in zip(path, path[1:], pts):
        ang = ctx.atan2(p[0] * q[1] - p[1] * q[0], p[0] * q[0] + p[1] * q[1])
        if abs(abs(ang) - math.pi) < 1e-6:
            ang = sign * math.pi
        ctx.check(sign * ang > -1e-9, 'goes round in the commanded direction', (p, q, ang))
        total += ang
        ctx.check(abs(total) <= abs(a.sweep) + 1e-6, 'turns no further than commanded', (total, a.sweep))
        ctx.check_close(pt[normal], a.start[normal] + a.rise * (total / a.sweep), 'movement along the normal goes with the angle', tol=1e-5)
    ctx.check(abs(total - a.sweep) < 1e-6, 'turns through the whole commanded angle', (total, a.sweep))


@harness('C23', cases=lambda tier: arc_cases(tier), ceil_bound=12, bounds=ARCS + DOMAIN % '12 wedges' + 'three methods; absolute distance mode')
def absolute(ctx, case):
    follows(ctx, case)


@harness('C23', cases=[{'plane': p, 'code': c, 's': s, 'e': e, 'form': f, 'dist': d, 'method': m, 'helix': True, 'arcmode': f == 'abs'}
                       for c in ('G2', 'G3') for f in ('rel', 'R', 'abs') for s, e in (('ne', 'sw'), ('se', 'N'))
                       for p, d, m in (('none', 'G90', 'm'), ('G17', 'none', 'i'), ('G17', 'G90', 'none'), ('none', 'none', 'none'))], ceil_bound=6,
         bounds='arguments left to their defaults; ' + DOMAIN % '6 wedges')
def defaults(ctx, case):
    follows(ctx, case)


def inc_cases(tier):
    cs = arc_cases('quick', dists=('G91',))
    return arc_cases('thorough', dists=('G91',)) if tier == 'thorough' else cs


@harness('C23', cases=inc_cases, ceil_bound=8, bounds='incremental distance mode: every line ends where it does in absolute mode (decided above), to the rounding of its words; '
         + ARCS + DOMAIN % '8 wedges')
def incremental(ctx, case):
    places = 4
    _, pts = Arc(ctx, dict(case, places=places)).lines()
    _, want = Arc(ctx, dict(case, dist='G90')).lines()
    ctx.check(len(pts) == len(want), 'as many lines in incremental mode', (len(pts), len(want)))
    for p, q in zip(pts, want):
        for a in 'XYZ':
            ctx.check_close(p[a], q[a], 'incremental line ends where the absolute one does: ' + a, tol=0.5 * 10 ** -places + 1e-6)
