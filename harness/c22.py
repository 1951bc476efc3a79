"""C22 A linearized arc stays within the permitted error of the true arc."""
import math

from symx.registry import harness
from harness.arcs import Arc, arc_cases, ARCS, DOMAIN


def deviation(method, angle):
    """Error of a wedge of this angle on a circle of radius one: what max_error has to be at least."""
    h = angle / 2
    if method == 'i':
        return 1 - math.cos(h)
    if method == 'o':
        return 1 / math.cos(h) - 1 if h < math.pi / 2 - 1e-9 else 1e9
    return 2 * math.tan(h / 2) ** 2


def within(ctx, case):
    a = Arc(ctx, case)
    out, pts = a.lines()
    r, err, m = a.true_r, a.err, case['method']
    path = a.path(pts)
    tol = 1e-6
    hi = {'i': 0, 'o': err, 'm': err / 2}[m]
    lo = {'i': err, 'o': 0, 'm': err / 2}[m]
    for i, (p, q) in enumerate(zip(path, path[1:])):
        last = i == len(path) - 2
        dq = ctx.sqrt(q[0] * q[0] + q[1] * q[1])
        ctx.check(dq <= r + hi + tol, 'no further outside the circle than permitted', (q, r))
        ctx.check(dq >= r - lo - tol, 'no further inside the circle than permitted (end of a line)', (q, r))
        d = (q[0] - p[0], q[1] - p[1])
        # nearest point of the line to the centre, if it is between its ends
        if ctx.decide(p[0] * d[0] + p[1] * d[1] < 0) and ctx.decide(q[0] * d[0] + q[1] * d[1] > 0):
            foot = abs(p[0] * q[1] - p[1] * q[0]) / ctx.sqrt(d[0] * d[0] + d[1] * d[1])
            ctx.check(foot >= r - lo - tol, 'no further inside the circle than permitted', (p, q, r))
        if 0 < i and not last and 'skew' not in case:
            mid = ctx.sqrt((p[0] + q[0]) * (p[0] + q[0]) + (p[1] + q[1]) * (p[1] + q[1])) / 2
            if m == 'o':
                ctx.check_close(mid, r, 'outside method: middle of a line on the circle', tol=tol)
            elif m == 'm':
                ctx.check_close(mid + dq, 2 * r, 'mid method: as far inside in the middle as outside at the ends', tol=tol)
        if m == 'i':
            ctx.check_close(dq, r, 'inside method: end of a line on the circle', tol=max(tol, 0.01 if 'skew' in case else 0))
    n = len(out) - (0 if m == 'i' else 1)
    ctx.check(n >= 1, 'at least one wedge', n)
    if n > 1:
        fewer = deviation(m, abs(a.sweep) / (n - 1))
        if abs(a.sweep) / (n - 1) < math.pi - 1e-9 or m == 'i':
            # either the error or (for an error over the radius) the radius asks for more wedges
            ctx.check(ctx.Or(r * fewer >= err - tol, fewer >= 1 - 1e-9, abs(a.sweep) / (n - 1) > math.pi), 'no more wedges than needed', (n, err, r))


def cases(tier):
    return arc_cases('thorough' if tier == 'thorough' else 'quick')


@harness('C22', cases=cases, ceil_bound=12, bounds=ARCS + DOMAIN % '12 wedges' + 'three methods')
def error(ctx, case):
    within(ctx, case)


@harness('C22', cases=lambda tier: [c for i, c in enumerate(arc_cases('thorough', forms=('rel',))) if tier == 'thorough' or i % 7 == 0 and 'skew' not in c], ceil_bound=32,
         bounds='some of these arcs with up to 32 wedges')
def many(ctx, case):
    within(ctx, case)


@harness('C22', cases=lambda tier: [dict(c, err='default') for i, c in enumerate(arc_cases('thorough', forms=('rel', 'R'))) if i % (3 if tier == 'thorough' else 17) == 0 and 'skew' not in c], ceil_bound=12,
         bounds='some of these arcs with no error given: within 0.01, up to 12 wedges')
def default_error(ctx, case):
    within(ctx, case)


@harness('C22', cases=lambda tier: [{'method': m, 'turn': t, 'sign': g} for m in 'iom' for t in TURNS for g in (1, -1)], ceil_bound=12,
         bounds='the method classes by themselves: three methods, eight angles, both directions, any radius and error, up to 12 wedges')
def method_class(ctx, case):
    L, m = ctx.lib, case['method']
    r, err = ctx.real('radius', 0.01, 1000), ctx.real('max_error', 0.00001, 10000)
    angle = case['sign'] * case['turn'] * math.pi
    V3 = L.Vector3
    z = V3(0., 0., 0.)
    start, end = V3(r, 0., 0.), V3(r * math.cos(-angle), r * math.sin(-angle), 0.)
    a = getattr(L, {'i': 'ArcLinearizeInside', 'o': 'ArcLinearizeOutside', 'm': 'ArcLinearizeMid'}[m])(
        max_error=err, plane_normal=V3(0., 0., 1.), arc_p_start=start, arc_p_end=end, arc_p_center=z,
        arc_radius=r, arc_angle=angle, helical_start=z, helical_end=z)
    n = a.wedge_count
    ctx.check(n >= 1, 'at least one wedge', n)
    n = int(n)
    ctx.check_close(a.wedge_angle, angle / n, 'the wedges share the angle of the arc')
    ctx.check(ctx.le(abs(a.wedge_angle), a.max_wedge_angle), 'no wedge over the widest permitted', (a.wedge_angle, a.max_wedge_angle))
    inner, outer = a.inner_radius, a.outer_radius
    half = math.cos(angle / n / 2)
    if m != 'i' and abs(angle / n) >= math.pi - 1e-9:
        return  # a wedge of half a turn has no tangent circle
    ctx.check_close(inner, outer * half, 'lines between points on the outer circle touch the inner one', tol=1e-6, info=(n, inner, outer))
    ctx.check(ctx.le(r - inner, err, 1e-6), 'inner radius within the error', (inner, r, err))
    ctx.check(ctx.le(outer - r, err, 1e-6), 'outer radius within the error', (outer, r, err))
    if m == 'i':
        ctx.check_close(outer, r, 'inside: the ends of lines are on the arc')
    elif m == 'o':
        ctx.check_close(inner, r, 'outside: the middles of lines are on the arc')
    else:
        ctx.check_close(inner + outer, 2 * r, 'mid: as far inside as outside', tol=1e-6)
    pairs = list(a.iter_vertices())
    ctx.check(len(pairs) == n + (0 if m == 'i' else 1), 'number of lines', (n, len(pairs)))
    for p, q in zip(pairs, pairs[1:]):
        ctx.check_close(q[0].x, p[1].x, 'each line starts where the last ended')
        ctx.check_close(q[0].y, p[1].y, 'each line starts where the last ended')
        d = ctx.sqrt(p[1].x * p[1].x + p[1].y * p[1].y)
        ctx.check_close(d, outer, 'lines end on the outer circle', tol=1e-6)
    for got, want in ((pairs[0][0], start), (pairs[-1][1], end)):
        for c in 'xyz':
            ctx.check_close(getattr(got, c), getattr(want, c), 'starts and ends with the arc', tol=1e-6)


TURNS = [0.1, 0.25, 0.5, 0.9, 1.0, 1.3, 1.75, 2.0]
