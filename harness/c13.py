"""C13 Modal state."""
from symx.registry import harness
from harness.common import code, codes, machine, same_code
from harness.tables import T, WORDS, GROUP, PARAMS, KEPT, GROUPS, MODAL, MOTION, RANK

VALUED = {'F100': 'F', 'S100': 'S'}


def make(ctx, w, tag, params=True):
    """The code w with symbolic value/parameters."""
    if w in VALUED:
        g = ctx.lib.text2gcodes(w)[0]
        g = type(g)(ctx.lib.Word(VALUED[w], ctx.real('%s_val' % tag, 0, 10000)))
    else:
        g = code(ctx, w)
    if params:
        letters = [l for l in 'XZRPQLDHIJK' if l in PARAMS[w]]
        if letters and ctx.boolean(tag + '_params'):
            for l in letters:
                if l == 'L':
                    g.add_parameter(ctx.lib.Word(l, ctx.integer('%s_%s' % (tag, l), 1, 2)))
                else:
                    g.add_parameter(ctx.lib.Word(l, ctx.real('%s_%s' % (tag, l), 1, 100)))
    return g


def expect(ctx, g, w, exp):
    """exp: group -> (word, kept parameters)"""
    grp = GROUP[w]
    if grp:
        exp[grp] = (g.word, dict((k, x.value) for k, x in g.params.items() if k in KEPT[w]), type(g))
    elif w == 'G80':
        exp['motion'] = None


def check_modes(ctx, m, exp, label):
    for grp in GROUPS:
        got = getattr(m.mode, grp)
        e = exp.get(grp)
        if e is None:
            ctx.check(got is None, label + ': no code in group ' + grp, got)
            continue
        ctx.check(got is not None, label + ': a code in group ' + grp, got)
        ctx.check(type(got) is e[2], label + ': class in group ' + grp, got)
        ctx.check(got.word.letter == e[0].letter, label + ': letter in group ' + grp, got)
        if e[0].letter == 'T':
            ctx.check(got.word.value == e[0].value, label + ': value in group ' + grp, got)
        else:
            ctx.check_close(got.word.value, e[0].value, label + ': value in group ' + grp, 1e-9)
        ctx.check(set(got.params) == set(e[1]), label + ': parameters kept in group ' + grp, got)
        for k in sorted(e[1]):
            ctx.check_close(got.params[k].value, e[1][k], label + ': kept parameter')


def initial(ctx, m):
    exp = {}
    for grp in GROUPS:
        g = getattr(m.mode, grp)
        if g is not None:
            exp[grp] = (g.word, dict((k, w.value) for k, w in g.params.items()), type(g))
    return exp


@harness('C13', cases=[{'i': i, 'null': n} for i in range(len(WORDS)) for n in (0, 1)],
         bounds='every code followed by every code (with symbolic values and parameters), on a default machine and on one with no modes')
def two_codes(ctx, case):
    w1 = WORDS[case['i']]
    w2 = ctx.choice('second', WORDS)
    m = ctx.lib.machine.NullMachine() if case['null'] else machine(ctx)
    exp = initial(ctx, m)
    if case['null']:
        ctx.check(not exp, 'a machine with no modes has none', exp)
    for i, w in enumerate((w1, w2)):
        g = make(ctx, w, 'c%d' % i, params=(w2 in ('G0', 'G90', 'G81', 'M3') or i == 1))
        expect(ctx, g, w, exp)
        m.process_gcodes(g)
        check_modes(ctx, m, exp, 'after %s' % ('first', 'second')[i])


@harness('C13', cases=[{'group': g} for g in GROUPS], bounds='every group set by name to every code, to nothing, and to things that are not codes')
def set_by_name(ctx, case):
    grp = case['group']
    m = machine(ctx)
    exp = initial(ctx, m)
    w = ctx.choice('w', WORDS + ['none', 'text', 'word'])
    err = ctx.lib.MachineInvalidState
    if w == 'none':
        setattr(m.mode, grp, None)
        exp[grp] = None
    elif w == 'text':
        ctx.must_raise(lambda: setattr(m.mode, grp, 'G1'), err, 'text is not accepted as a mode')
    elif w == 'word':
        ctx.must_raise(lambda: setattr(m.mode, grp, ctx.lib.Word('G', 1)), err, 'a word is not accepted as a mode')
    else:
        g = make(ctx, w, 'c')
        if GROUP[w] == grp:
            setattr(m.mode, grp, g)
            expect(ctx, g, w, exp)
        else:
            ctx.must_raise(lambda: setattr(m.mode, grp, g), err, 'a code of another group is refused')
    check_modes(ctx, m, exp, 'after assignment')


@harness('C13', cases=[{'i': i} for i in range(len(MODAL))], bounds='every modal code: the mode is unaffected by later changes to the code that set it')
def remembered_is_independent(ctx, case):
    w = MODAL[case['i']]
    m = machine(ctx)
    g = make(ctx, w, 'c')
    exp = initial(ctx, m)
    expect(ctx, g, w, exp)
    m.set_mode(g)
    check_modes(ctx, m, exp, 'after set_mode')
    extra = [l for l in 'YWQPDH' if l in PARAMS[w] and l not in g.params][:1]
    for l in extra:
        g.add_parameter(ctx.lib.Word(l, 1.0))
    check_modes(ctx, m, exp, 'after adding a parameter to the executed code')


@harness('C13', cases=[{'k': k} for k in range(4)], bounds='four blocks of several codes executed at once; one code per group')
def several_at_once(ctx, case):
    ws = [['G1', 'G91', 'G20', 'F100', 'M3'], ['G80', 'G0', 'G55', 'S100', 'T1'], ['G81', 'G18', 'G99', 'M8', 'G93'],
          ['G17', 'G61', 'G43', 'G96', 'M48', 'G41']][case['k']]
    m = machine(ctx)
    exp = initial(ctx, m)
    gs = [make(ctx, w, w) for w in ws]
    for w, g in sorted(zip(ws, gs), key=lambda x: RANK[x[0]]):
        expect(ctx, g, w, exp)
    m.process_gcodes(*gs)
    check_modes(ctx, m, exp, 'after a block')


HISTORY = ['G1', 'G91', 'G18', 'G20', 'M3', 'F100', 'G81', 'G99', 'G55', 'G80', 'T1', 'G93', 'M8', 'G0', 'S100', 'G90', 'G96', 'G41', 'G61', 'M5']


@harness('C13', cases=[{'i': i, 'null': n} for i in range(len(HISTORY)) for n in (0, 1)],
         bounds='twenty codes executed one after another, one of them any code (any values and parameters); modes compared after each')
def history(ctx, case):
    m = ctx.lib.machine.NullMachine() if case['null'] else machine(ctx)
    exp = initial(ctx, m)
    for i, w in enumerate(HISTORY):
        if i == case['i']:
            w = ctx.choice('w', WORDS)
        g = make(ctx, w, 'c%d' % i, params=i == case['i'])
        expect(ctx, g, w, exp)
        m.process_gcodes(g)
        if i >= case['i']:
            check_modes(ctx, m, exp, 'after code %d' % (i + 1))
