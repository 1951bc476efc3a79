"""Arcs to linearize, shared by C21 to C24."""
import math
from fractions import Fraction as F

from harness.common import code, PLANES

METHODS = {'i': 'ArcLinearizeInside', 'o': 'ArcLinearizeOutside', 'm': 'ArcLinearizeMid'}
# unit vectors with rational coordinates
DIRS = {
    'E': (F(1), F(0)), 'N': (F(0), F(1)), 'W': (F(-1), F(0)), 'S': (F(0), F(-1)),
    'ne': (F(3, 5), F(4, 5)), 'en': (F(4, 5), F(3, 5)), 'nw': (F(-5, 13), F(12, 13)), 'sw': (F(-8, 17), F(-15, 17)),
    'ws': (F(-24, 25), F(-7, 25)), 'se': (F(20, 29), F(-21, 29)), 'e+': (F(99, 101), F(20, 101)), 'e-': (F(99, 101), F(-20, 101)),
    'es': (F(3, 5), F(-4, 5)),
}


def sweep_of(case):
    """Angle the arc turns through, positive counter-clockwise."""
    s, e = DIRS[case['s']], DIRS[case['e']]
    a = math.atan2(float(s[0] * e[1] - s[1] * e[0]), float(s[0] * e[0] + s[1] * e[1]))
    if s == e:
        return 2 * math.pi if case['code'] == 'G3' else -2 * math.pi
    if abs(abs(a) - math.pi) < 1e-12:
        return math.pi if case['code'] == 'G3' else -math.pi
    if case['code'] == 'G3':
        return a if a > 0 else a + 2 * math.pi
    return a if a < 0 else a - 2 * math.pi


class Arc(object):
    """The arc of a case: centre T + radius*(...), with symbolic translation, radius, helix and error."""

    def __init__(self, ctx, case, ratio=None):
        self.ctx, self.case = ctx, case
        self.axes = PLANES[case['plane'] if case['plane'] != 'none' else 'G17']
        first, second, normal = self.axes
        s, e = DIRS[case['s']], DIRS[case['e']]
        self.r = ctx.real('radius', 0.01, 1000)
        self.centre = dict((a, ctx.real('c_' + a, -1000, 1000)) for a in 'XYZ')
        k = lambda q: self.r * q.numerator / q.denominator
        self.start = dict(self.centre)
        self.start[first] = self.centre[first] + k(s[0])
        self.start[second] = self.centre[second] + k(s[1])
        skew = F(case.get('skew', '0'))
        e = (e[0] * (1 + skew), e[1] * (1 + skew))
        self.end = dict(self.start)
        self.end[first] = self.centre[first] + k(e[0])
        self.end[second] = self.centre[second] + k(e[1])
        if s[0] == e[0]:
            self.end[first] = self.start[first]
        if s[1] == e[1]:
            self.end[second] = self.start[second]
        self.rise = 0.0
        if case.get('helix'):
            self.rise = ctx.real('rise', -1000, 1000)
            self.end[normal] = self.start[normal] + self.rise
        if case.get('err') == 'default':
            self.err = 0.01
        elif ratio is None:
            self.err = ctx.real('max_error', 0.00001, 10000)
        else:
            self.err = self.r * ratio
        # the circle that is followed: through start and end, its radius the mean of the distances to the given centre
        self.true_centre, self.true_r, self.sweep = dict(self.centre), self.r, sweep_of(case)
        if skew:
            sx, sy, ex, ey = [float(v) for v in s + e]
            r = (1 + math.hypot(ex, ey)) / 2
            mx, my, dx, dy = (sx + ex) / 2, (sy + ey) / 2, ex - sx, ey - sy
            d = math.hypot(dx, dy)
            h = math.sqrt(r * r - d * d / 4)
            cx, cy = min(((mx + k2 * dy / d * h, my - k2 * dx / d * h) for k2 in (1, -1)), key=lambda q: math.hypot(*q))
            self.true_centre[first] = self.centre[first] + self.r * cx
            self.true_centre[second] = self.centre[second] + self.r * cy
            self.true_r = self.r * r
            a = math.atan2((sx - cx) * (ey - cy) - (sy - cy) * (ex - cx), (sx - cx) * (ex - cx) + (sy - cy) * (ey - cy))
            self.sweep = a if (a > 0) == (case['code'] == 'G3') else (a + 2 * math.pi if a < 0 else a - 2 * math.pi)

    def code(self):
        ctx, case = self.ctx, self.case
        first, second, normal = self.axes
        W = ctx.lib.Word
        g = code(ctx, case['code'])
        named = []
        s, e = DIRS[case['s']], DIRS[case['e']]
        for a, same in ((first, s[0] == e[0]), (second, s[1] == e[1])):
            if not (same and case.get('omit')):
                named.append(a)
        if not named:
            named = [first]
        if case.get('helix'):
            named.append(normal)
        for a in named:
            v = self.end[a]
            if case['dist'] == 'G91':
                v = v - self.start[a]
            g.add_parameter(W(a, v))
        if case['form'] == 'R':
            g.add_parameter(W('R', self.r if abs(self.sweep) < math.pi + 1e-9 else -self.r))
        else:
            for a in (first, second):
                v = self.centre[a]
                zero = False
                if case['form'] != 'abs':
                    v = v - self.start[a]
                    zero = (s[0] if a == first else s[1]) == 0
                if zero and case.get('omit'):
                    continue
                g.add_parameter(W({'X': 'I', 'Y': 'J', 'Z': 'K'}[a], v))
        self.g = g
        return g

    def lines(self):
        """The positions the lines end at, and the codes."""
        ctx, case = self.ctx, self.case
        lib = ctx.lib
        T = lib.transform
        kw = {}
        if case['plane'] != 'none':
            kw['plane'] = code(ctx, case['plane'])
        if case['dist'] != 'none':
            kw['dist_mode'] = code(ctx, case['dist'])
        if case['form'] == 'abs':
            kw['arc_dist_mode'] = code(ctx, 'G90.1')
        elif case.get('arcmode', True):
            kw['arc_dist_mode'] = code(ctx, 'G91.1')
        if case['method'] != 'none':
            kw['method_class'] = getattr(T, METHODS[case['method']])
        if 'places' in case:
            kw['decimal_places'] = case['places']
        pos = lib.machine.Position(**self.start)
        if case.get('err') != 'default':
            kw['max_error'] = self.err
        out = list(T.linearize_arc(self.code(), pos, **kw))
        cur = dict(self.start)
        pts = []
        for h in out:
            cur = dict(cur)
            for a in sorted(h.params):
                v = h.params[a].value
                cur[a] = cur[a] + v if case['dist'] == 'G91' else v
            pts.append(cur)
        return out, pts

    def planar(self, p):
        """Coordinates in the plane relative to the centre."""
        first, second, _ = self.axes
        return (p[first] - self.true_centre[first], p[second] - self.true_centre[second])

    def path(self, pts):
        """Successive points in the plane, from the start."""
        return [self.planar(self.start)] + [self.planar(p) for p in pts]


PAIRS = [('E', 'N'), ('E', 'S'), ('ne', 'sw'), ('nw', 'se'), ('E', 'W'), ('S', 'N'), ('E', 'E'), ('ne', 'ne'), ('E', 'e+'), ('E', 'e-'), ('ne', 'en'), ('en', 'ne'), ('ws', 'N'), ('ne', 'es')]


def arc_cases(tier, dists=('G90',), forms=('rel', 'abs', 'R'), methods='iom', pairs=PAIRS):
    out = []
    n = 0
    for plane in ('G17', 'G18', 'G19'):
        for c in ('G2', 'G3'):
            for s, e in pairs:
                for form in forms:
                    if form == 'R' and s == e:
                        continue
                    for d in dists:
                        n += 1
                        m = methods[n % len(methods)]
                        for mm in (m if tier == 'quick' else methods):
                            out.append({'plane': plane, 'code': c, 's': s, 'e': e, 'form': form, 'dist': d, 'method': mm, 'helix': n % 2 == 0, 'omit': n % 5 < 2})
    for mm in methods:
        for s, e, k in (('ne', 'N', '1/64'), ('E', 'W', '1/100'), ('se', 'nw', '-1/50'), ('N', 'ws', '-1/1000')):
            for c in ('G2', 'G3'):
                for d in dists:
                    out.append({'plane': 'G17' if c == 'G2' else 'G18', 'code': c, 's': s, 'e': e, 'form': 'rel', 'dist': d, 'method': mm, 'helix': True, 'skew': k})
    return out


ARCS = '14 arcs (quarter, half, long, full, short) in three planes, both directions, given by relative or absolute centre or radius, and some whose centre is not quite in the middle; '
DOMAIN = 'any radius 0.01 to 1000, centre, helix, and permitted error giving up to %s; '
