"""Helpers shared by harnesses."""
AXES3 = 'XYZ'
PLANES = {'G17': ('X', 'Y', 'Z'), 'G18': ('Z', 'X', 'Y'), 'G19': ('Y', 'Z', 'X')}


def code(ctx, text):
    """The single code a text spells."""
    g = ctx.lib.text2gcodes(text)
    assert len(g) == 1
    return g[0]


def codes(ctx, text):
    return ctx.lib.text2gcodes(text)


def word(ctx, letter, value):
    return ctx.lib.Word(letter, value)


def reals(ctx, name, axes, lo=-10000, hi=10000):
    return dict((a, ctx.real('%s_%s' % (name, a), lo, hi)) for a in axes)


def machine(ctx, start=None, cs=None, cs_offset=None, temp=None, mode='', axes=None, mode_class=None, setup=(), inch=False):
    """A machine; start: absolute position, cs: active coordinate system number with its offset, temp: temporary offset."""
    M = ctx.lib.Machine
    d = {}
    if axes is not None:
        d['axes'] = set(axes)
    if inch:
        mode_class = type('InchMode', (ctx.lib.machine.Mode,), {'default_mode': 'G0 G17 G90 G91.1 G94 G20 G40 G49 G54 G61 G97 M5 M9 F0 S0 T0'})
    if mode_class is not None:
        d['MODE_CLASS'] = mode_class
    if d:
        M = type('TestMachine', (M,), d)
    m = M()
    if cs is not None:
        m.process_gcodes(code(ctx, CS_WORDS[cs - 1]))
    for t in setup:
        m.process_gcodes(*codes(ctx, t))
    if cs_offset is not None:
        m.state.coord_systems[cs or 1].offset.update(**cs_offset)
    if temp is not None:
        m.state.offset.update(**temp)
    if start is not None:
        m.abs_pos = m.Position(**start)
        # a range that every position is inside of (C12 decides the range): updating it never branches
        m.abs_range_min = m.Position(**dict((a, -1e9) for a in start))
        m.abs_range_max = m.Position(**dict((a, 1e9) for a in start))
    return m


CS_WORDS = ['G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3']


def check_pos(ctx, pos, exp, label, tol=None):
    for a in sorted(exp):
        ctx.check_close(getattr(pos, a), exp[a], '%s: %s' % (label, a), tol=tol)


def check_posdict(ctx, got, exp, label, tol=None):
    ctx.check(set(got) == set(exp), label + ': axes', (sorted(got), sorted(exp)))
    for a in sorted(exp):
        ctx.check_close(got[a], exp[a], '%s: %s' % (label, a), tol=tol)


def mode_words(m):
    """{group: code} of a machine's mode, groups without a code left out."""
    return dict((g.modal_group, g) for g in m.mode.gcodes)


def same_codes(ctx, a, b, label):
    ctx.check(len(a) == len(b), label + ': number of codes', (a, b))
    for x, y in zip(a, b):
        ctx.check(type(x) is type(y), label + ': class', (x, y))
        same_code(ctx, x, y, label)


def same_word(ctx, x, y, label, tol=None):
    ctx.check(x.letter == y.letter, label + ': letter', (x, y))
    if x.letter in 'OT':
        ctx.check(x.value == y.value, label + ': value', (x, y))
    else:
        ctx.check_close(x.value, y.value, label + ': value', tol=tol)


def same_code(ctx, x, y, label, tol=None):
    ctx.check(type(x) is type(y), label + ': class', (x, y))
    same_word(ctx, x.word, y.word, label + ' word', 1e-9)
    ctx.check(set(x.params) == set(y.params), label + ': parameters', (x, y))
    for k in sorted(x.params):
        same_word(ctx, x.params[k], y.params[k], label + ' parameter', tol)


def same_modes(ctx, a, b, label, tol=None):
    A, B = mode_words(a), mode_words(b)
    ctx.check(set(A) == set(B), label + ': modal groups', (A, B))
    for k in sorted(A):
        same_code(ctx, A[k], B[k], label, tol)


def state_of(m):
    """Snapshot of a machine's whole state as plain data."""
    s = {'abs': dict(m.abs_pos.values), 'min': dict(m.abs_range_min.values), 'max': dict(m.abs_range_max.values),
         'temp': dict(m.state.offset.values), 'cur': m.state.cur_coord_sys,
         'cs': dict((i, dict(m.state.coord_systems[i].offset.values)) for i in range(1, 10)),
         'mode': dict((g.modal_group, (type(g).__name__, g.word.letter, g.word.value,
                                       dict((k, w.value) for k, w in g.params.items()))) for g in m.mode.gcodes)}
    return s


def same_state(ctx, a, b, label, tol=None):
    for k in ('abs', 'min', 'max', 'temp'):
        check_posdict(ctx, a[k], b[k], '%s: %s' % (label, k), tol)
    ctx.check(a['cur'] == b['cur'], label + ': active coordinate system', (a['cur'], b['cur']))
    ctx.check(set(a['cs']) == set(b['cs']), label + ': coordinate systems')
    for i in sorted(a['cs']):
        check_posdict(ctx, a['cs'][i], b['cs'][i], '%s: offset of system %s' % (label, i), tol)
    ctx.check(set(a['mode']) == set(b['mode']), label + ': modal groups', (a['mode'], b['mode']))
    for g in sorted(a['mode']):
        x, y = a['mode'][g], b['mode'][g]
        ctx.check(x[:2] == y[:2], label + ': mode code', (x, y))
        if x[1] in 'OT':
            ctx.check(x[2] == y[2], label + ': mode value', (x, y))
        else:
            ctx.check_close(x[2], y[2], label + ': mode value')
        ctx.check(set(x[3]) == set(y[3]), label + ': mode parameters', (x, y))
        for k in sorted(x[3]):
            ctx.check_close(x[3][k], y[3][k], label + ': mode parameter', tol)
