"""C08 Position arithmetic."""
from copy import copy
from symx.registry import harness

AXSETS = ['XYZ', 'XYZABCUVW', 'X', 'UVW', 'XYZA']


def pos(ctx, name, axes, unit=None, lo=-100000, hi=100000):
    vals = dict((a, ctx.real('%s_%s' % (name, a), lo, hi)) for a in axes)
    kw = dict(vals)
    if unit is not None:
        kw['unit'] = unit
    return ctx.lib.Position(axes=axes, **kw), vals


def same(ctx, p, vals, label, unit=None):
    ctx.check(set(p.axes) == set(vals), label + ': axes')
    got = p.values
    ctx.check(set(got) == set(vals), label + ': stored axes', got)
    for a in sorted(vals):
        ctx.check_close(got[a], vals[a], label + ': value')
        ctx.check_close(getattr(p, a), vals[a], label + ': attribute')
    if unit is not None:
        ctx.check(p.unit == unit, label + ': unit', p.unit)


@harness('C08', cases=lambda tier: [{'axes': a, 'unit': u, 'op': op} for a in AXSETS for u in (0, 1)
                                    for op in ('add', 'sub', 'mul', 'div', 'scale')],
         bounds='axis sets XYZ, XYZABCUVW, X, UVW, XYZA; both units; |coordinate| <= 100000, |scalar| <= 1000 (real); twelve fixed scalars from 1e-9 to 3e9')
def arithmetic(ctx, case):
    axes, unit = case['axes'], case['unit']
    p, pv = pos(ctx, 'p', axes, unit)
    if case['op'] in ('add', 'sub'):
        q, qv = pos(ctx, 'q', axes, unit)
        r = p + q if case['op'] == 'add' else p - q
        exp = dict((a, pv[a] + qv[a] if case['op'] == 'add' else pv[a] - qv[a]) for a in axes)
        same(ctx, q, qv, 'right operand unchanged', unit)
    elif case['op'] == 'scale':
        k = ctx.choice('k', [1, -1, 2, 3, -7, 0.5, 25.4, 1e-3, -1e-9, 1e6, 7e8, -3e9])
        r = p * k
        for a in axes:
            ctx.check(ctx.close(r.values[a] / k, pv[a], 1e-6), 'product: value', (a, r.values[a], pv[a]))
        same(ctx, r, dict((a, r.values[a]) for a in axes), 'product', unit)
        r = p / k
        for a in axes:
            ctx.check(ctx.close(r.values[a] * k, pv[a], 1e-6), 'quotient: value', (a, r.values[a], pv[a]))
        same(ctx, r, dict((a, r.values[a]) for a in axes), 'quotient', unit)
        same(ctx, p, pv, 'left operand unchanged', unit)
        return
    else:
        k = ctx.real('k', -1000, 1000)
        if case['op'] == 'div':
            ctx.assume(ctx.Or(k > 0.001, k < -0.001))
            r = p / k
            same(ctx, r, dict((a, r.values[a]) for a in axes), 'quotient', unit)
            for a in axes:
                ctx.check_close(r.values[a] * k, pv[a], 'quotient times divisor', tol=1e-3)
            same(ctx, p, pv, 'left operand unchanged', unit)
            return
        r = p * k
        exp = dict((a, pv[a] * k) for a in axes)
    same(ctx, r, exp, 'result', unit)
    same(ctx, p, pv, 'left operand unchanged', unit)
    ctx.check(r is not p, 'result is a new position')


MISMATCH = [('XYZ', 'XY'), ('XY', 'XYZ'), ('XYZ', 'UVW'), ('XYZA', 'XYZB'), ('X', 'XYZABCUVW'), ('XYZABCUVW', 'XYZ')]


@harness('C08', cases=[{'a': a, 'b': b} for a, b in MISMATCH], bounds='six pairs of different axis sets; |coordinate| <= 100000')
def different_axes(ctx, case):
    a, b = case['a'], case['b']
    p, pv = pos(ctx, 'p', a)
    q, qv = pos(ctx, 'q', b)
    err = ctx.lib.MachineInvalidAxis
    ctx.must_raise(lambda: p + q, err, 'adding positions with different axes is refused')
    if set(b) - set(a):
        ctx.must_raise(lambda: p - q, err, 'subtracting axes the left side lacks is refused')
    else:
        r = p - q
        exp = dict((k, pv[k] - qv[k] if k in qv else pv[k]) for k in pv)
        same(ctx, r, exp, 'difference')
    same(ctx, p, pv, 'left operand unchanged')
    same(ctx, q, qv, 'right operand unchanged')
    ctx.check(not (p == q), 'positions with different axes are not equal')
    ctx.check(p != q, 'positions with different axes are unequal')


@harness('C08', cases=[{'axes': a, 'unit': u} for a in AXSETS for u in (0, 1)],
         bounds='five axis sets, both units; every non-empty subset of up to the first three axes updated')
def copies_and_updates(ctx, case):
    axes, unit = case['axes'], case['unit']
    p, pv = pos(ctx, 'p', axes, unit)
    c = copy(p)
    same(ctx, c, pv, 'copy', unit)
    ctx.check(c == p, 'copy is equal')
    named = ctx.subset('named', axes[:3])
    new = dict((a, ctx.real('new_%s' % a, -100000, 100000)) for a in named)
    c.update(**new)
    exp = dict(pv)
    exp.update(new)
    same(ctx, c, exp, 'updated copy', unit)
    same(ctx, p, pv, 'original after updating the copy', unit)
    d = copy(p)
    setattr(p, axes[0], pv[axes[0]] + 1)
    same(ctx, d, pv, 'copy after changing the original', unit)
    missing = [a for a in 'XYZABCUVW' if a not in axes]
    for a in missing[:2]:
        ctx.must_raise(lambda: setattr(d, a, 1.0), ctx.lib.MachineInvalidAxis, 'setting an axis it lacks is refused')
        ctx.must_raise(lambda: d.update(**{a: 1.0}), ctx.lib.MachineInvalidAxis, 'updating an axis it lacks is refused')
        ctx.must_raise(lambda: getattr(d, a), AttributeError, 'reading an axis it lacks is refused')
    same(ctx, d, pv, 'copy after refused changes', unit)


@harness('C08', cases=[{'axes': a, 'unit': u, 'op': o} for a in ('XYZ', 'XY', 'XYZABCUVW') for u in (0, 1) for o in ('==', '!=', 'min', 'max', '+', '-')],
         bounds='three axis sets, operands in different units: comparing, combining and adding changes neither; sum and difference in the unit of the left')
def mixed_units(ctx, case):
    axes, unit, op = case['axes'], case['unit'], case['op']
    p, pv = pos(ctx, 'p', axes, unit)
    q, qv = pos(ctx, 'q', axes, 1 - unit)
    P = ctx.lib.Position
    if op in '==!=':
        r = (p == q) if op == '==' else (p != q)
        ctx.decide(r)
    elif op in '+-':
        r = p + q if op == '+' else p - q
        ctx.check(r is not p and r is not q and r.unit == unit, 'unit of the result', r)
    else:
        r = getattr(P, op)(p, q)
        ctx.check(r is not p and r is not q and r.unit == unit, 'unit of the result', r)
    same(ctx, p, pv, 'left operand unchanged', unit)
    same(ctx, q, qv, 'right operand unchanged', 1 - unit)


@harness('C08', cases=[{'axes': a, 'unit': u} for a in AXSETS for u in (0, 1)], bounds='five axis sets, both units')
def equality(ctx, case):
    axes, unit = case['axes'], case['unit']
    p, pv = pos(ctx, 'p', axes, unit)
    q, qv = pos(ctx, 'q', axes, unit)
    agree = ctx.And(*[pv[a] == qv[a] for a in axes])
    eq = p == q
    ne = p != q
    ctx.check(ctx.Iff(eq, agree), 'equal exactly when every coordinate agrees')
    ctx.check(ctx.Iff(ne, ctx.Not(agree)), 'unequal exactly when some coordinate differs')
    same(ctx, p, pv, 'left operand unchanged', unit)
    same(ctx, q, qv, 'right operand unchanged', unit)


@harness('C08', cases=[{'axes': a} for a in ['XYZ', 'XY', 'X', 'UVW', 'XYZABCUVW']], bounds='five axis sets')
def reading_changes_nothing(ctx, case):
    axes = case['axes']
    p, pv = pos(ctx, 'p', axes)
    q = copy(p)
    v = p.vector
    for a, c in zip('XYZ', (v.x, v.y, v.z)):
        ctx.check_close(c, pv.get(a, 0), 'vector component')
    ctx.check([w.letter for w in p.words] == sorted(axes), 'words are the axes in order', p.words)
    for w in p.words:
        ctx.check_close(w.value, pv[w.letter], 'word value')
    same(ctx, p, pv, 'position after reading it')
    ctx.check(p == q, 'reading a position does not change what it equals')


@harness('C08', cases=[{'axes': a, 'unit': u} for a in ['XYZ', 'XY', 'X', 'UVW', 'XYZA'] for u in (0, 1)], bounds='five axis sets, both units; any one coordinate more, in the constructor of a position and of a machine\'s own')
def more_coordinates(ctx, case):
    axes = case['axes']
    vals = dict((a, ctx.real('p_' + a, -1000, 1000)) for a in ctx.subset('given', axes[:3]))
    more = dict(vals)
    more[ctx.choice('more', [a for a in 'XYZABCUVW' if a not in axes] + ['Q'])] = ctx.real('v', -1000, 1000)
    P = ctx.lib.Position if ctx.boolean('named') else type('P', (ctx.lib.Position,), {'default_axes': set(axes)})
    kw = {} if P is not ctx.lib.Position else {'axes': axes}
    ctx.must_raise(lambda: P(unit=case['unit'], **dict(more, **kw)), ctx.lib.MachineInvalidAxis, 'a coordinate for an axis it lacks is refused')
    exp = dict((a, vals.get(a, 0.0)) for a in axes)
    same(ctx, P(unit=case['unit'], **dict(vals, **kw)), exp, 'axes not given are zero', case['unit'])
