"""C34 The list of a mode's codes is the mode."""
from symx.registry import harness
from harness.common import code, codes, machine, same_code, check_pos, reals, state_of
from harness.tables import T, WORDS, GROUP, KEPT, GROUPS
from harness.c13 import make, expect, check_modes, initial

MODAL_WORDS = [w for w in WORDS if GROUP[w]]
CYCLES = ('G73', 'G76', 'G81', 'G82', 'G83', 'G85', 'G89')
DEFAULT = ['G0', 'G17', 'G90', 'G91.1', 'G94', 'G21', 'G40', 'G49', 'G54', 'G61', 'G97', 'M5', 'M9', 'F0', 'S0', 'T0']
SECOND = ['G91', 'G81', 'G1', 'G55', 'M3', 'F100', 'G96', 'G80', 'M6']


def listed(ctx, mode, exp, label):
    """mode.gcodes holds one code per group that has one."""
    got = mode.gcodes
    set_groups = sorted(g for g in GROUPS if exp.get(g))
    ctx.check(len(got) == len(set_groups), label + ': one code for each group that has one', (got, set_groups))
    for g in got:
        name = [n for n in GROUPS if ctx.lib.gcodes.MODAL_GROUP_MAP[n] == g.modal_group]
        ctx.check(len(name) == 1 and getattr(mode, name[0]) is g, label + ': each listed code is that of its group', (g, name))
    ctx.check(len(set(g.modal_group for g in got)) == len(got), label + ': no group twice', got)


@harness('C34', cases=[{'first': w, 'null': n} for w in MODAL_WORDS for n in (0, 1)],
         bounds='modes reached by any modal code (any values) and one of nine others or none, on a default machine and one with no modes')
def recreates(ctx, case):
    m = ctx.lib.machine.NullMachine() if case['null'] else machine(ctx)
    exp = initial(ctx, m)
    how = ctx.choice('how', ['set', 'executed', 'text'])
    w2 = ctx.choice('second', [None] + SECOND)
    for i, w in enumerate((case['first'], w2)):
        if w is not None:
            g = make(ctx, w, 'c%d' % i, params=(i == 0)) if how != 'text' else code(ctx, w)
            expect(ctx, g, w, exp)
            m.process_gcodes(g)
    listed(ctx, m.mode, exp, 'list')
    if how == 'set':
        mode = ctx.lib.machine.Mode(set_default=False)
        changed = mode.set_mode(*reversed(m.mode.gcodes))
        ctx.check(sorted(changed) == sorted(g.modal_group for g in m.mode.gcodes), 'the groups set are reported', changed)
        n = ctx.lib.machine.NullMachine()
        n.mode = mode
        for k in sorted(changed):
            ctx.check(changed[k] is mode.modal_groups[k], 'what is reported is the new mode', changed[k])
        check_modes(ctx, n, exp, 'set in a mode')
        listed(ctx, mode, exp, 'list of the new mode')
    elif how == 'executed':
        motion = exp.get('motion')
        if motion and any(w in CYCLES and type(code(ctx, w)) is motion[2] for w in CYCLES):
            return      # executing a cycle again moves the machine (C16)
        n = ctx.lib.machine.NullMachine()
        start = reals(ctx, 's', 'XYZ')
        n.abs_pos.update(**start)
        n.process_gcodes(*m.mode.gcodes)
        check_modes(ctx, n, exp, 'executed')
        check_pos(ctx, n.abs_pos, start, 'executing modes moves nothing')
        ctx.check(n.state.cur_coord_sys == m.state.cur_coord_sys or not exp.get('coordinate_system'), 'active coordinate system', n.state.cur_coord_sys)
    else:
        parts = [ctx.str(g) for g in m.mode.gcodes]
        s = ctx.str(m.mode)
        t = ''
        for k, p in enumerate(parts):
            t = t + (' ' if k else '') + p
        ctx.check(len(s) == len(t) and s == t, 'text of a mode', (s, t))


@harness('C34', cases=[{'of': o} for o in ('mode', 'machine', 'empty', 'null')], bounds='the documented default mode; the empty mode')
def defaults(ctx, case):
    lib = ctx.lib
    if case['of'] in ('empty', 'null'):
        mode = lib.machine.Mode(set_default=False) if case['of'] == 'empty' else lib.machine.NullMachine().mode
        ctx.check(mode.gcodes == [], 'an empty mode has no codes', mode.gcodes)
        for g in GROUPS:
            ctx.check(getattr(mode, g) is None, 'an empty mode has no code in any group', g)
        ctx.check(ctx.str(mode) == '', 'text of an empty mode')
        return
    m = lib.Machine()
    if case['of'] == 'mode':
        m.mode = lib.machine.Mode()
    exp = {}
    for w in DEFAULT:
        g = code(ctx, w)
        exp[GROUP['%s' % {'F0': 'F100', 'S0': 'S100', 'T0': 'T1'}.get(w, w)]] = (g.word, {}, type(g))
    check_modes(ctx, m, exp, 'default')
    listed(ctx, m.mode, exp, 'default')
    ctx.check(m.state.cur_coord_sys == 1, 'the default coordinate system is the first', m.state.cur_coord_sys)
    for n in ('nothing', 'Motion', 'G0', '_motion'):
        ctx.must_raise(lambda: getattr(m.mode, n), AttributeError, 'only groups have modes')


TEXTS = ['G1 G18 G91', 'G20 (inch)\nG55 ; second\n\n G83 R{r} Q{q} ', 'M3 S{s} F{f}', '', '(nothing)', 'G0\nG1\nG2', 'G4 P{p} G91\nM6 T3\nN5']
CODES = [['G1', 'G18', 'G91'], ['G20', 'G55', 'G83'], ['M3', 'S{s}', 'F{f}'], [], [], ['G2'], ['G91']]


@harness('C34', cases=[{'i': i} for i in range(len(TEXTS))], bounds='seven other default modes as text, with comments and several lines, symbolic values')
def other_default(ctx, case):
    lib, text, exp, vals = ctx.lib, '', {}, {}
    parts = TEXTS[case['i']].replace('{', '\0{').replace('}', '}\0').split('\0')
    for p in parts:
        if p[:1] == '{':
            vals[p] = ctx.integer(p[1], 1, 99)
            p = ctx.str(vals[p])
        text = text + p
    M = type('OtherMode', (lib.machine.Mode,), {'default_mode': text})
    for w in CODES[case['i']]:
        g = code(ctx, w if '{' not in w else w[0] + '1')
        if '{' in w:
            g.word.value = vals[w[1:]]
        exp[GROUP[{'S': 'S100', 'F': 'F100'}.get(w[0], w)]] = (g.word, {'R': vals['{r}'], 'Q': vals['{q}']} if w == 'G83' else {}, type(g))
    if ctx.boolean('in_a_machine'):
        m = type('OtherMachine', (lib.Machine,), {'MODE_CLASS': M})()
    else:
        m = lib.machine.NullMachine()
        m.mode = M()
    check_modes(ctx, m, exp, 'given')
    listed(ctx, m.mode, exp, 'given')


@harness('C34', cases=[{'first': w, 'second': v} for w in MODAL_WORDS for v in [None] + SECOND],
         bounds='any modal code with all its parameters (any values), with one of nine others or none, set in a default mode')
def reported(ctx, case):
    mode = ctx.lib.machine.Mode()
    gs = [make(ctx, case['first'], 'c0', params=True)] + ([code(ctx, case['second'])] if case['second'] else [])
    if len(set(g.modal_group for g in gs)) < len(gs):
        return
    before = dict((n, getattr(mode, n)) for n in GROUPS)
    changed = mode.set_mode(*gs)
    ctx.check(set(changed) == set(g.modal_group for g in gs if g.modal_group), 'the groups reported are those of the codes', changed)
    for n in GROUPS:
        k = ctx.lib.gcodes.MODAL_GROUP_MAP[n]
        if k in changed:
            ctx.check(getattr(mode, n) is changed[k], 'what is reported is the new mode', (n, changed[k]))
            g = [g for g in gs if g.modal_group == k][0]
            kept = KEPT.get(case['first'] if g is gs[0] else case['second'], '')
            ctx.check(changed[k].word == g.word and set(changed[k].params) == set(l for l in g.params if l in kept), 'with the parameters that are retained', (changed[k], g))
            ctx.check(changed[k] is not g, 'the mode is not the code given', g)
        else:
            ctx.check(getattr(mode, n) is before[n], 'the other groups keep their codes', n)
