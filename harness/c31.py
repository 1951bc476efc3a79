"""C31 Plane geometry."""
from symx.registry import harness
from harness.common import code, PLANES

AX = {'+X': (1, 0, 0), '-X': (-1, 0, 0), '+Y': (0, 1, 0), '-Y': (0, -1, 0), '+Z': (0, 0, 1), '-Z': (0, 0, -1)}
PAIRS = [(a, b) for a in sorted(AX) for b in sorted(AX) if a[1] != b[1]]


def vec(ctx, name, lo=-1000, hi=1000):
    V = ctx.lib.euclid3.Vector3
    xs = [ctx.real('%s_%s' % (name, a), lo, hi) for a in 'xyz']
    return V(*xs), xs


def con(ctx, t, k=1):
    return ctx.lib.euclid3.Vector3(*[float(x) * k for x in t])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@harness('C31', cases=[{'plane': p, 'how': h} for p in sorted(PLANES) for h in ('class', 'instance', 'machine')],
         bounds='three planes; any vectors with coordinates up to 1000')
def plane_frame(ctx, case):
    first, second, normal = PLANES[case['plane']]
    p = code(ctx, case['plane'])
    if case['how'] == 'class':
        p = type(p)
    elif case['how'] == 'machine':
        m = ctx.lib.Machine()
        m.process_gcodes(p)
        p = m.mode.plane_selection
    v, xs = vec(ctx, 'v')
    r = p.quat * v
    exp = {first: xs[0], second: xs[1], normal: xs[2]}
    for a in 'XYZ':
        ctx.check_close(getattr(r, a.lower()), exp[a], 'first axis, second axis and normal of the plane: %s' % a)
    b = p.quat.conjugated() * r
    for a, x in zip('xyz', xs):
        ctx.check_close(getattr(b, a), x, 'the conjugate turns back: %s' % a)
    w, ys = vec(ctx, 'w')
    ctx.check(set(p.plane_axes) == set([first, second]), 'plane axes', p.plane_axes)
    ctx.check(p.normal_axis == normal, 'normal axis', p.normal_axis)
    n = (p.normal.x, p.normal.y, p.normal.z)
    ctx.check(all(abs(c - (1.0 if a == normal else 0.0)) < 1e-9 for a, c in zip('XYZ', n)), 'normal', n)
    s = p.quat * w
    ctx.check_close(dot((r.x, r.y, r.z), (s.x, s.y, s.z)), dot(xs, ys), 'lengths and angles are kept', tol=1e-3)


NAMES = {'G17': ('XY', 'Z'), 'G18': ('XZ', 'Y'), 'G19': ('YZ', 'X'), 'G17.1': ('UV', 'W'), 'G18.1': ('UW', 'V'), 'G19.1': ('VW', 'U')}


@harness('C31', cases=[{'plane': p} for p in sorted(NAMES)], bounds='six planes, selected on a machine that is then moved anywhere')
def plane_axes(ctx, case):
    axes, normal = NAMES[case['plane']]
    m = ctx.lib.Machine()
    p = code(ctx, case['plane'])
    m.process_gcodes(p)
    m.abs_pos.update(X=ctx.real('x', -100, 100))
    for q in (p, type(p), m.mode.plane_selection):
        ctx.check(set(q.plane_axes) == set(axes), 'the axes of the plane', q.plane_axes)
        ctx.check(q.normal_axis == normal, 'the normal of the plane', q.normal_axis)


NORMALS = {'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1), '-Z': (0, 0, -1), '345': (3, 4, 0), '122': (1, 2, 2), '236': (-2, 3, -6), '148': (1, -4, 8)}


def projection(ctx, v, xs, n, ns, nn, label):
    f = ctx.lib.plane_projection
    r = f(v, n)
    rs = (r.x, r.y, r.z)
    vn = dot(xs, ns)
    ctx.check_close(dot(rs, ns), 0, label + ': nothing is left along the normal', tol=1e-3)
    for a, x, y, z in zip('xyz', rs, xs, ns):
        ctx.check_close((y - x) * nn, vn * z, label + ': only the part along the normal is removed (%s)' % a, tol=1e-3)
    q = f(r, n)
    for a, x in zip('xyz', rs):
        ctx.check_close(getattr(q, a), x, label + ': projecting again changes nothing (%s)' % a, tol=1e-3)
    ctx.check((v.x == xs[0]) and (v.y == xs[1]) and (v.z == xs[2]), label + ': the vector is unchanged')


@harness('C31', cases=[{'normal': k} for k in sorted(NORMALS)], bounds='eight directions of the normal, any length 0.001 to 100; any vector')
def projection_of(ctx, case):
    d = NORMALS[case['normal']]
    k = ctx.real('length', 0.001, 100)
    v, xs = vec(ctx, 'v')
    ns = [c * k for c in d]
    projection(ctx, v, xs, con(ctx, d, k), ns, dot(ns, ns), 'projection')


@harness('C31', cases=[{'zero': z} for z in ('', 'x', 'y', 'z')], bounds='any normal longer than 0.1 with coordinates up to 10 (one of them zero in three cases); any vector up to 100')
def any_projection(ctx, case):
    ns = [0.0 if a == case['zero'] else ctx.real('n_' + a, -10, 10) for a in 'xyz']
    nn = dot(ns, ns)
    ctx.assume(nn > 0.01)
    v, xs = vec(ctx, 'v', -100, 100)
    projection(ctx, v, xs, ctx.lib.euclid3.Vector3(*ns), ns, nn, 'any projection')


@harness('C31', cases=lambda tier: [{'from': a + b} for a, b in PAIRS],
         bounds='every pair of perpendicular axis directions onto every other (24 x 24), any lengths 0.01 to 100')
def align(ctx, case):
    a, b = case['from'][:2], case['from'][2:]
    t = ctx.choice('to', PAIRS)
    ls = [ctx.real('l%d' % i, 0.01, 100) for i in range(4)]
    q = ctx.lib.quat2coord_system(con(ctx, AX[a], ls[0]), con(ctx, AX[b], ls[1]), con(ctx, AX[t[0]], ls[2]), con(ctx, AX[t[1]], ls[3]))
    for x, y in ((a, t[0]), (b, t[1])):
        r = q * con(ctx, AX[x])
        for c, e in zip('xyz', AX[y]):
                ctx.check_close(getattr(r, c), e, "the first pair is carried onto the second", info=(case["from"], t))
    v, xs = vec(ctx, 'v', -100, 100)
    r = q * v
    ctx.check_close(dot((r.x, r.y, r.z), (r.x, r.y, r.z)), dot(xs, xs), 'the rotation keeps lengths', tol=1e-3)


# perpendicular directions off the axes
FRAMES = [((1, 2, 2), (2, 1, -2)), ((2, -2, 1), (1, 2, 2)), ((3, 4, 0), (-4, 3, 0)), ((4, 0, -3), (0, 1, 0)), ((2, 3, 6), (3, -6, 2)), ((0, 5, 12), (1, 0, 0)),
          ((1, 1, 1), (1, -1, 0)), ((1, 1, 0), (0, 0, 1)), ((-1, 1, 2), (1, 1, 0)), ((1, 0, 0), (0, 1, 0)), ((0, 0, 1), (1, 0, 0)), ((0, -1, 0), (0, 0, -1))]


@harness('C31', cases=[{'from': f, 'to': t} for f in range(len(FRAMES)) for t in range(len(FRAMES))],
         bounds='twelve frames, most off the axes, onto each other and with either or both directions reversed, any lengths from a few; any vector')
def align_any(ctx, case):
    (a, b), (c, d) = FRAMES[case['from']], FRAMES[case['to']]
    sc, sd = ctx.choice('signs', [(1, 1), (-1, 1), (1, -1), (-1, -1)])
    c, d = [x * sc for x in c], [x * sd for x in d]
    ka, kc = ctx.choice('lengths', [(1, 1), (0.69, -1.4 * -1), (0.013, 77), (1e-3, 3.3)])
    if ctx.boolean('alone'):
        q = ctx.lib.utils.quat2align(con(ctx, a, ka), con(ctx, c, kc))
        pairs = [(a, c)]
    else:
        q = ctx.lib.quat2coord_system(con(ctx, a, ka), con(ctx, b, kc), con(ctx, c, kc), con(ctx, d, ka))
        pairs = [(a, c), (b, d)]
    v, xs = vec(ctx, 'v', -100, 100)
    r = q * v
    rs = (r.x, r.y, r.z)
    for x, y in pairs:
        nx, ny = float(dot(x, x)) ** 0.5, float(dot(y, y)) ** 0.5
        ctx.check_close(dot(rs, y) / ny, dot(xs, x) / nx, 'what a vector has along the first pair it then has along the second', tol=1e-5)
    ctx.check_close(dot(rs, rs), dot(xs, xs), 'the rotation keeps lengths', tol=1e-3)
