"""C24 Impossible arcs are refused with a parameter error."""
import itertools

from symx.registry import harness
from harness.common import code, reals, PLANES
from harness.arcs import Arc, arc_cases, METHODS, ARCS, DOMAIN

# what is required of the parameters alone
SUBSETS = ['', 'X', 'XY', 'Z', 'Y']
CENTRES = ['', 'I', 'IJ', 'K', 'JK', 'IJK']


def run(ctx, g, start, case, max_error=0.01):
    kw = dict((k, code(ctx, case[v])) for k, v in (('plane', 'plane'), ('dist_mode', 'dist'), ('arc_dist_mode', 'arc')) if case.get(v))
    m = getattr(ctx.lib.transform, METHODS[case['method']]) if case.get('method') else None
    return next(iter(ctx.lib.transform.linearize_arc(g, ctx.lib.machine.Position(**start), method_class=m, max_error=max_error, **kw)))


def param_cases(tier):
    out = []
    n = 0
    for c in ('G2', 'G3'):
        for xyz in SUBSETS:
            for ijk in CENTRES:
                for r in ('', 'R', 'R0'):
                    if xyz and ((ijk and not r) or (r == 'R' and not ijk)):
                        continue
                    n += 1
                    out.append({'code': c, 'xyz': xyz, 'ijk': ijk, 'r': r, 'plane': ('G17', 'G18', 'G19')[n % 3], 'dist': ('G90', 'G91')[n % 2], 'arc': ('G91.1', 'G90.1')[n // 2 % 2], 'method': 'iom'[n % 3]})
    return out


@harness('C24', cases=param_cases, bounds='every combination of X/Y/Z, I/J/K and R that is not an arc, radius zero; any values and start')
def bad_parameters(ctx, case):
    g = code(ctx, case['code'])
    W = ctx.lib.Word
    for l in case['xyz'] + case['ijk']:
        g.add_parameter(W(l, ctx.real('v_' + l, -1000, 1000)))
    if case['r'] == 'R':
        g.add_parameter(W('R', ctx.real('v_R', -1000, 1000)))
    elif case['r'] == 'R0':
        g.add_parameter(W('R', 0.0))
    if ctx.boolean('turns'):
        g.add_parameter(W('P', 1))
    if ctx.boolean('extra'):
        g.add_parameter(W('A', 5.0))
    E = ctx.lib.GCodeParameterError
    ctx.must_raise(lambda: g.assert_params(), E, 'refused by assert_params')
    ctx.must_raise(lambda: run(ctx, g, reals(ctx, 's', 'XYZ', -1000, 1000), case), E, 'refused before any line')


@harness('C24', cases=[{'code': c, 'xyz': x, 'ijk': k, 'r': r} for c in ('G2', 'G3') for x in ('X', 'Y', 'Z', 'XY', 'XYZ', 'YZ')
                       for k, r in (('I', ''), ('J', ''), ('K', ''), ('IJ', ''), ('IJK', ''), ('', 'R'))], bounds='every combination that is an arc; any values')
def good_parameters(ctx, case):
    g = code(ctx, case['code'])
    for l in case['xyz'] + case['ijk'] + case['r']:
        v = ctx.real('v_' + l, -1000, 1000)
        if l == 'R':
            ctx.assume(ctx.Or(v > 0, v < 0))
        g.add_parameter(ctx.lib.Word(l, v))
    v, e = ctx.attempt(lambda: g.assert_params())
    ctx.check(e is None, 'not refused by assert_params', e)


@harness('C24', cases=[{'code': c, 'plane': p, 'dist': d, 'method': m} for c in ('G2', 'G3') for p in sorted(PLANES) for d in ('G90', 'G91') for m in 'iom'],
         bounds='any start, any end, any radius (of either sign) at least 0.0001 less than half the way; any permitted error')
def radius_too_small(ctx, case):
    first, second, normal = PLANES[case['plane']]
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    d = dict((a, ctx.real('d_' + a, -1000, 1000)) for a in (first, second))
    R = ctx.real('R', 0.001, 1000)
    ctx.assume(d[first] * d[first] + d[second] * d[second] > 4 * (R + 0.0001) * (R + 0.0001))
    g = code(ctx, case['code'])
    for a in d:
        g.add_parameter(ctx.lib.Word(a, d[a] + (start[a] if case['dist'] == 'G90' else 0)))
    if ctx.boolean('helix'):
        g.add_parameter(ctx.lib.Word(normal, ctx.real('rise', -1000, 1000)))
    g.add_parameter(ctx.lib.Word('R', -R if ctx.boolean('long') else R))
    ctx.must_raise(lambda: run(ctx, g, start, case, ctx.real('max_error', 0.0001, 10)), ctx.lib.GCodeParameterError, 'a radius that does not reach is refused')


@harness('C24', cases=[{'code': c, 'plane': p, 'dist': d, 'method': m, 'what': w} for c in ('G2', 'G3') for p in sorted(PLANES) for d in ('G90', 'G91') for m in 'iom' for w in ('radius', 'centre')],
         bounds='end at the start, with a radius, or with the centre there too; any start, radius, movement along the normal and permitted error')
def coincident(ctx, case):
    first, second, normal = PLANES[case['plane']]
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    g = code(ctx, case['code'])
    W = ctx.lib.Word
    for a in [first, second] if ctx.boolean('both') else [second]:
        g.add_parameter(W(a, start[a] if case['dist'] == 'G90' else 0.0))
    if ctx.boolean('helix'):
        g.add_parameter(W(normal, ctx.real('rise', -1000, 1000)))
    if case['what'] == 'radius':
        R = ctx.real('R', 0.0001, 1000)
        g.add_parameter(W('R', -R if ctx.boolean('long') else R))
    else:
        for a in (first, second):
            g.add_parameter(W({'X': 'I', 'Y': 'J', 'Z': 'K'}[a], 0.0))
    ctx.must_raise(lambda: run(ctx, g, start, case, ctx.real('max_error', 0.0001, 10)), ctx.lib.GCodeParameterError, 'refused before any line')


@harness('C24', cases=lambda tier: [dict(c, method='iom'[i % 3]) for i, c in enumerate(arc_cases('thorough' if tier == 'thorough' else 'quick', ('G90', 'G91')))], ceil_bound=6,
         bounds='well-formed: ' + ARCS + DOMAIN % '6 wedges' + 'three methods, both distance modes')
def well_formed(ctx, case):
    a = Arc(ctx, case)
    v, e = ctx.attempt(lambda: a.lines())
    ctx.check(e is None, 'a well-formed arc is not refused', e)


RATIOS = ['1/2', '1', '2', '50001/100000', '3/4', '1000', '100000']


@harness('C24', cases=[{'code': c, 'plane': p, 'dist': d, 'ratio': q, 'to': t} for c in ('G2', 'G3') for p, d in (('G17', 'G90'), ('G18', 'G91'), ('G19', 'G90')) for q in RATIOS for t in ('first', '-second', '34')], ceil_bound=4,
         bounds='radius from half to 100000 times the way to the end (both signs); any start, any length of that way 0.00001 to 1000, and permitted error giving up to 4 wedges')
def radius_reaches(ctx, case):
    from fractions import Fraction
    first, second, normal = PLANES[case['plane']]
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    way = ctx.real('way', 0.00001, 1000)
    q = Fraction(case['ratio'])
    R = way * q.numerator / q.denominator
    d = {'first': {first: way}, '-second': {second: -way}, '34': {first: way * 3 / 5, second: way * 4 / 5}}[case['to']]
    g = code(ctx, case['code'])
    for a in d:
        g.add_parameter(ctx.lib.Word(a, d[a] + (start[a] if case['dist'] == 'G90' else 0)))
    g.add_parameter(ctx.lib.Word('R', -R if ctx.boolean('long') else R))
    case = dict(case, method='m')
    v, e = ctx.attempt(lambda: run(ctx, g, start, case, ctx.real('max_error', 0.00001, 1000)))
    ctx.check(e is None, 'a well-formed arc is not refused', e)


@harness('C24', cases=[{'code': c, 'plane': p, 'dist': d, 'method': m} for c in ('G2', 'G3') for p in ('G17.1', 'G18.1', 'G19.1') for d in ('G90', 'G91') for m in 'iom'],
         bounds='arcs by centre and by radius in the planes of the U V W axes; any values')
def other_planes(ctx, case):
    g = code(ctx, case['code'])
    for l in 'XYR' if ctx.boolean('radius') else 'XYIJ':
        v = ctx.real('v_' + l, 1, 100)
        g.add_parameter(ctx.lib.Word(l, v))
    ctx.must_raise(lambda: run(ctx, g, reals(ctx, 's', 'XYZ', -1000, 1000), case), NotImplementedError, 'refused before any line')
