"""C20 Conversion of moves to incremental coordinates."""
from symx.registry import harness
from harness.common import code, reals

OTHER = ['M3', 'G17', 'G4 P1', 'F100', 'M8', 'G94', 'N5', 'object', 'S200 ', 'G80']
BAD = ['G2', 'G3', 'G81', 'G83', 'G33', 'G33.1', 'G38.2', 'G5', 'G73', 'G85']
MODES = {'none': None, 'G91': 'G91', 'G90': 'G90'}


def moves(ctx, kinds, axes):
    """The codes to convert, and what each is: ('move', class, {axis: value}) or ('other', object)."""
    out, desc = [], []
    for i, k in enumerate(kinds):
        if k in ('G0', 'G1'):
            g = code(ctx, k)
            named = ctx.subset('n%d' % i, axes)
            vals = reals(ctx, 'v%d' % i, named, -1000, 1000)
            for a in named:
                g.add_parameter(ctx.lib.Word(a, vals[a]))
            out.append(g)
            desc.append(('move', type(g), vals))
        elif k == 'object':
            o = ('something', i)
            out.append(o)
            desc.append(('other', o, None))
        else:
            g = code(ctx, k)
            out.append(g)
            desc.append(('other', g, None))
    return out, desc


def convert(ctx, items, start, mode, axes):
    from_ = ctx.lib.machine.Position(axes=axes, **start)
    dist = code(ctx, mode) if mode else None
    wrap = ctx.lib.gcodes._gcodes_abs2rel(start_pos=from_, dist_mode=dist, axes=axes)

    def f(*largs, **kwargs):
        ctx.check(largs == (1,) and kwargs == {'k': 2}, 'the arguments are passed on')
        for x in items:
            yield x
    return f, wrap(f), from_


def compare(ctx, got, desc, start, axes):
    cur, k = dict(start), 0
    for what, x, vals in desc:
        if what == 'other':
            ctx.check(k < len(got) and got[k] is x, 'other codes pass unchanged, in their place', (k, got, x))
            k += 1
            continue
        delta = dict((a, vals[a] - cur[a]) for a in vals)
        cur.update(vals)
        if ctx.decide(ctx.And(*[d == 0 for d in delta.values()])) if delta else True:
            continue        # no movement: no code
        ctx.check(k < len(got) and type(got[k]) is x, 'the code of the move is kept', (k, got, x))
        g = got[k]
        k += 1
        ctx.check(set(g.params) <= set(axes), 'only axes are named', g)
        for a in axes:
            ctx.check_close(g.params[a].value if a in g.params else 0.0, delta.get(a, 0.0), 'movement along %s' % a)
    ctx.check(k == len(got), 'moves of no length are left out, nothing is added', (k, got))


def cases(tier):
    out = []
    kinds = ['G0', 'G1', 'M3', 'object', 'G4 P1']
    for mode in ('none', 'G91', 'G90'):
        for a in kinds:
            for b in kinds:
                if mode == 'none' and tier == 'quick' and a not in ('G0', 'G1'):
                    continue
                out.append({'mode': mode, 'a': a, 'b': b, 'axes': 'XYZ', 'named': 'XZ', 'third': True})
    for a in ('G0', 'G1'):
        for b in ('G0', 'G1'):
            for axes in ('XZ', 'XYZA'):
                out.append({'mode': 'G91', 'a': a, 'b': b, 'axes': axes, 'named': axes[-2:], 'third': tier != 'quick'})
            out.append({'mode': 'G91', 'a': a, 'b': b, 'axes': 'XYZ', 'named': 'XYZ', 'third': False})
    return out


@harness('C20', cases=cases, bounds='two or three of G0, G1, other codes and objects; any start, any subset of two axes (three for two codes), any values')
def sequence(ctx, case):
    axes = case['axes']
    start = reals(ctx, 's', axes, -1000, 1000)
    kinds = [case['a'], case['b']]
    if case['third']:
        kinds.append(ctx.choice('k', ['G0', 'G1'] + OTHER[:3]) if ctx.tier == 'thorough' else 'G1')
    items, desc = moves(ctx, kinds, case['named'])
    before = [(dict((l, w.value) for l, w in x.params.items()) if hasattr(x, 'params') else None) for x in items]
    f, g, from_ = convert(ctx, items, start, MODES[case['mode']], axes)
    got = list(g(1, k=2))
    if case['mode'] == 'G90':
        ctx.check(len(got) == len(items) and all(a is b for a, b in zip(got, items)), 'absolute: untouched', got)
    else:
        compare(ctx, got, desc, start, axes)
    for a in axes:
        ctx.check_close(getattr(from_, a), start[a], 'the start position is not modified')
    for x, b in zip(items, before):
        if b is not None:
            ctx.check(set(x.params) == set(b), 'codes given are not modified')
            for l in sorted(b):
                ctx.check_close(x.params[l].value, b[l], 'codes given are not modified')


@harness('C20', cases=[{'k': k} for k in OTHER], bounds='ten other codes, each between two moves')
def other_codes(ctx, case):
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    items, desc = moves(ctx, ['G1', case['k'].strip(), 'G0'], 'XZ')
    f, g, _ = convert(ctx, items, start, 'G91', 'XYZ')
    compare(ctx, list(g(1, k=2)), desc, start, 'XYZ')


@harness('C20', cases=[{'mode': m, 'bad': b} for m in ('none', 'G91', 'G90') for b in BAD], bounds='ten unsupported motions, before and after moves')
def refused(ctx, case):
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    items, desc = moves(ctx, ['G0'], 'XY')
    bad = code(ctx, case['bad'])
    for a, v in sorted(reals(ctx, 'b', ctx.subset('nb', 'XZ'), -1000, 1000).items()):
        if a in bad.param_letters:
            bad.add_parameter(ctx.lib.Word(a, v))
    items = [bad] + items if ctx.boolean('first') else items + [bad]
    f, g, _ = convert(ctx, items, start, MODES[case['mode']], 'XYZ')
    if case['mode'] == 'G90':
        got = list(g(1, k=2))
        ctx.check(len(got) == 2 and all(a is b for a, b in zip(got, items)), 'absolute: untouched', got)
    else:
        ctx.must_raise(lambda: list(g(1, k=2)), NotImplementedError, 'unsupported motions are refused')


@harness('C20', cases=[{'mode': m, 'turn': t} for m in ('none', 'G91') for t in range(4)], bounds='eight codes, five of them moves (some of no length), in four arrangements; any values')
def long_run(ctx, case):
    kinds = ['G0', 'G1', 'M3', 'G1', 'object', 'G0', 'G4 P1', 'G1']
    kinds = kinds[2 * case['turn']:] + kinds[:2 * case['turn']]
    start = reals(ctx, 's', 'XYZ', -1000, 1000)
    items, desc, cur = [], [], dict(start)
    for i, k in enumerate(kinds):
        if k in ('G0', 'G1'):
            g = code(ctx, k)
            named = ('X', 'XY', 'Z', 'YZ')[i % 4]
            vals = reals(ctx, 'v%d' % i, named, -1000, 1000)
            if i % 2:
                ctx.assume(vals[named[0]] != cur[named[0]])
            cur.update(vals)
            for a in sorted(vals):
                g.add_parameter(ctx.lib.Word(a, vals[a]))
            items.append(g)
            desc.append(('move', type(g), vals))
        else:
            o = ('something', i) if k == 'object' else code(ctx, k)
            items.append(o)
            desc.append(('other', o, None))
    f, g, from_ = convert(ctx, items, start, MODES[case['mode']], 'XYZ')
    compare(ctx, list(g(1, k=2)), desc, start, 'XYZ')
