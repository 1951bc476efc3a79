"""C09 Units."""
from copy import copy
from symx.registry import harness
from harness.c08 import pos, same, AXSETS

INCH, MM = 0, 1
FACTOR = {(INCH, MM): 25.4, (MM, INCH): 1 / 25.4}


def converted(vals, a, b):
    if a == b:
        return dict(vals)
    return dict((k, v * 25.4 if (a, b) == (INCH, MM) else v / 25.4) for k, v in vals.items())


@harness('C09', cases=[{'axes': a, 'frm': f, 'to': t} for a in AXSETS for f in (0, 1) for t in (0, 1)],
         bounds='five axis sets; |coordinate| <= 100000; tolerance 1e-6 (binary rounding)')
def convert(ctx, case):
    p, pv = pos(ctx, 'p', case['axes'], case['frm'])
    orig = copy(p)
    p.unit = case['to']
    same(ctx, p, converted(pv, case['frm'], case['to']), 'converted', case['to'])
    same(ctx, orig, pv, 'copy taken before', case['frm'])
    c = copy(p)
    same(ctx, c, converted(pv, case['frm'], case['to']), 'copy of a converted position', case['to'])
    p.unit = case['frm']
    same(ctx, p, pv, 'converted back', case['frm'])
    same(ctx, c, converted(pv, case['frm'], case['to']), 'copy after converting the original back', case['to'])


@harness('C09', cases=[{'axes': a, 'ua': u, 'ub': 1 - u} for a in AXSETS for u in (0, 1)],
         bounds='five axis sets; points further apart than 1e-5 in some axis are never equal')
def equality_sound(ctx, case):
    p, pv = pos(ctx, 'p', case['axes'], case['ua'], -1000, 1000)
    q, qv = pos(ctx, 'q', case['axes'], case['ub'], -1000, 1000)
    qc = converted(qv, case['ub'], case['ua'])
    near = ctx.And(*[ctx.close(pv[a], qc[a], 1e-5) for a in case['axes']])
    eq, ne = (p == q), (p != q)
    ctx.check(ctx.Implies(eq, near), 'equal positions are the same point')
    ctx.check(ctx.Iff(eq, ctx.Not(ne)), '== and != disagree')
    same(ctx, p, pv, 'left operand unchanged', case['ua'])
    same(ctx, q, qv, 'right operand unchanged', case['ub'])


EXACT = [(0, 0), (5, 127), (-10, -254), (50, 1270)]


@harness('C09', cases=[{'axes': a, 'flip': f} for a in ('XYZ', 'XY') for f in (0, 1)],
         bounds='four exactly convertible coordinates per axis, and zero')
def equality_complete(ctx, case):
    vals = dict((a, ctx.choice('v_' + a, EXACT)) for a in case['axes'][:2])
    P = ctx.lib.Position
    p = P(axes=case['axes'], unit=INCH, **dict((a, float(v[0])) for a, v in vals.items()))
    q = P(axes=case['axes'], unit=MM, **dict((a, float(v[1])) for a, v in vals.items()))
    if case['flip']:
        p, q = q, p
    ctx.check(p == q, 'the same point in different units is equal')
    ctx.check(not (p != q), 'the same point in different units is not unequal')


@harness('C09', cases=[{'axes': a, 'ua': u, 'ub': v, 'which': w} for a in ('XYZ', 'XYZABCUVW', 'X') for u in (0, 1) for v in (0, 1)
                       for w in ('min', 'max')], bounds='three axis sets, all unit combinations; |coordinate| <= 1000')
def min_max(ctx, case):
    ax = case['axes']
    p, pv = pos(ctx, 'p', ax, case['ua'], -1000, 1000)
    q, qv = pos(ctx, 'q', ax, case['ub'], -1000, 1000)
    qc = converted(qv, case['ub'], case['ua'])
    r = getattr(ctx.lib.Position, case['which'])(p, q)
    ctx.check(r.unit == case['ua'], 'result is in the first unit', r.unit)
    ctx.check(set(r.axes) == set(ax) and set(r.values) == set(ax), 'result has the axes of both', (r.axes, r.values))
    if case['ua'] == case['ub']:
        s = getattr(ctx.lib.Position, case['which'])(p, copy(p))
        ctx.check(s == p and s is not p, 'of a position and itself: equal to it', (s, p))
        ctx.check(r == getattr(ctx.lib.Position, case['which'])(q, p), 'the order of the two does not matter', r)
    for a in ax:
        v = getattr(r, a)
        lo = ctx.And(ctx.le(v, pv[a]), ctx.le(v, qc[a])) if case['which'] == 'min' else ctx.And(ctx.le(pv[a], v), ctx.le(qc[a], v))
        ctx.check(lo, 'bounds both')
        ctx.check(ctx.Or(ctx.close(v, pv[a]), ctx.close(v, qc[a])), 'is one of both')
    same(ctx, p, pv, 'first operand unchanged', case['ua'])
    same(ctx, q, qv, 'second operand unchanged', case['ub'])
