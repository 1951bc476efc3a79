"""C15 Bare parameters."""
from symx.registry import harness
from harness.common import code, machine, reals, state_of, same_state, same_codes, same_word
from harness.tables import PARAMS, KEPT, GROUP

ACTIVE = {'none': None, 'G0': 'G0 X1', 'G1': 'G1 X1 Y2', 'G2': 'G2 X1 Y2 I3', 'G38.2': 'G38.2 Z1', 'G33': 'G33 Z1 K2',
          'G81': 'G81 X1 Y2 Z-3 R4', 'G83': 'G83 X5 Z-6 R7 Q2', 'G73': 'G73 Y5 Z-6 R7 Q2 L2', 'G82': 'G82 X1 Z-1 R1 P5',
          'G5': 'G5 X1 Y2 I3 J4 P5 Q6'}
LETTERS = ['X', 'Y', 'Z', 'R', 'I', 'P', 'Q', 'L', 'H']


def params_of(text):
    out = {}
    for w in text.split()[1:]:
        out[w[0]] = float(w[1:])
    return out


def fresh(ctx, case, start, off, ignore=False):
    M = ctx.lib.Machine
    if ignore:
        M = type('Ignoring', (M,), {'ignore_invalid_modal': True})
    m = M()
    m.process_gcodes(code(ctx, 'G56'))
    m.process_gcodes(code(ctx, case['dist']))
    if case['active'] == 'none':
        m.process_gcodes(code(ctx, 'G80'))
    else:
        m.process_gcodes(code(ctx, ACTIVE[case['active']]))
    m.state.coord_systems[3].offset.update(**off)
    m.abs_pos = m.Position(**start)
    m.abs_range_min = m.Position(**dict((a, -1e9) for a in start))
    m.abs_range_max = m.Position(**dict((a, 1e9) for a in start))
    return m


def value(ctx, l):
    return ctx.integer('v_L', 1, 3) if l == 'L' else ctx.real('v_' + l, -100, 100)


CASES = [{'active': a, 'dist': d, 'how': h} for a in sorted(ACTIVE) for d in ('G90', 'G91') for h in ('gcodes', 'block')]


@harness('C15', cases=CASES, bounds='11 active motions, every set of bare words over X Y Z R I P Q L H, any state and values')
def bare(ctx, case):
    act = case['active']
    start, off = reals(ctx, 's', 'XYZ'), reals(ctx, 'o', 'XYZ')
    ignore = ctx.boolean('ignore')
    m = fresh(ctx, case, start, off, ignore)
    letters = ctx.subset('l', LETTERS[:5] if case['how'] == 'block' else ['X', 'Z', 'R', 'I', 'Q', 'L', 'H'])
    if not letters:
        return
    vals = dict((l, value(ctx, l)) for l in letters)
    words = [ctx.lib.Word(l, vals[l]) for l in letters]
    if ctx.boolean('reverse'):
        words = list(reversed(words))
    legal = PARAMS[act] if act != 'none' else set()
    bad = [l for l in letters if l not in legal]
    before = state_of(m)

    def go():
        if case['how'] == 'block':
            b = ctx.lib.Block()
            b.modal_params = list(words)
            m.process_block(b)
        else:
            m.process_gcodes(modal_params=list(words))
    if (bad or act == 'none') and not ignore:
        ctx.must_raise(go, ctx.lib.MachineInvalidState, 'bare words the active motion cannot take are refused')
        same_state(ctx, state_of(m), before, 'after a refusal')
        return
    go()
    good = [l for l in letters if l in legal]
    if not good:
        if act == 'none' or not KEPT[act]:
            after = state_of(m)
            for k in ('min', 'max'):
                after[k] = dict((a, after[k][a]) for a in before[k])
            same_state(ctx, after, before, 'every word was ignored')
        return
    # the same, written in full
    n = fresh(ctx, case, start, off)
    full = dict((k, v) for k, v in params_of(ACTIVE[act]).items() if k in KEPT[act])
    full.update((l, vals[l]) for l in good)
    g = code(ctx, act)
    for l in sorted(full):
        g.add_parameter(ctx.lib.Word(l, full[l]))
    n.process_gcodes(g)
    same_state(ctx, state_of(m), state_of(n), 'bare parameters')


@harness('C15', cases=[{'active': a, 'dist': 'G90'} for a in sorted(ACTIVE)], bounds='11 active motions; blocks with a new motion, a mode, or nothing, and bare words X Z R H Q G9.5, or E and G9.5 twice')
def clean(ctx, case):
    act = case['active']
    m = fresh(ctx, case, reals(ctx, 's', 'XYZ'), {})
    before = state_of(m)
    letters = ctx.subset('l', ['X', 'Z', 'R', 'H', 'Q'])
    vals = dict((l, value(ctx, l)) for l in letters)
    words = [ctx.lib.Word(l, vals[l]) for l in letters]
    unknown = ctx.choice('unknown', [0, 1, 2] if len(words) < 3 else [0, 1])
    if unknown:
        words.insert(len(words) // 2, ctx.lib.Word('G', 9.5))
    if unknown == 2:
        words += [ctx.lib.Word('E', ctx.real('e1', -100, 100)), ctx.lib.Word('G', 9.5), ctx.lib.Word('E', ctx.real('e2', -100, 100))]
    other = ctx.choice('other', [None, 'G91', 'M3', 'G1 X5', 'G81 Z1', 'G80'])
    b = ctx.lib.Block()
    b.gcodes = [code(ctx, other)] if other else []
    b.modal_params = list(words)
    m.clean_block(b)
    if act == 'none' or other in ('G1 X5', 'G81 Z1'):
        exp = []
    else:
        exp = [w for w in words if w.letter in PARAMS[act]]
    ctx.check(len(b.modal_params) == len(exp), 'exactly the unusable bare parameters are removed', (b.modal_params, exp))
    for x, y in zip(b.modal_params, exp):
        same_word(ctx, x, y, 'kept bare parameter')
    ctx.check(len(b.gcodes) == (1 if other else 0), 'the codes of the block are kept')
    same_state(ctx, state_of(m), before, 'cleaning does not change the machine')


@harness('C15', cases=[{'active': a, 'dist': d} for a in sorted(ACTIVE) for d in ('G90', 'G91')],
         bounds='11 active motions; a mode code and bare X Y; the list of effective codes')
def effective(ctx, case):
    act = case['active']
    m = fresh(ctx, case, {'X': 0.0, 'Y': 0.0, 'Z': 0.0}, {})
    before = state_of(m)
    vals = reals(ctx, 'v', ctx.subset('l', 'XY'), -100, 100)
    others = [w for w in ('M30', 'G91', 'F100') if ctx.boolean(w)]
    b = ctx.lib.Block()
    b.gcodes = [code(ctx, w) for w in others]
    given = list(b.gcodes)
    b.modal_params = [ctx.lib.Word(l, v) for l, v in vals.items()]
    if vals and act == 'none':
        ctx.must_raise(lambda: m.block_modal_gcodes(b), ctx.lib.MachineInvalidState, 'bare words without a motion are refused')
        return
    out = m.block_modal_gcodes(b)
    ctx.check(len(b.gcodes) == len(given) and all(x is y for x, y in zip(b.gcodes, given)), 'the block is unchanged')
    ctx.check(len(b.modal_params) == len(vals), 'the bare parameters are unchanged')
    same_state(ctx, state_of(m), before, 'the machine is unchanged')
    exp = dict((str(g.word), g) for g in given)
    ctx.check(len(out) == len(given) + (1 if vals else 0), 'one code per code, one for the bare parameters', out)
    ranks = []
    for g in out:
        if any(g is x for x in given):
            ranks.append({'M30': 250, 'G91': 210, 'F100': 40}[others[[g is x for x in given].index(True)]])
            continue
        ranks.append(242)
        ctx.check(type(g) is type(code(ctx, act)), 'bare parameters become the active motion', g)
        full = dict((k, v) for k, v in params_of(ACTIVE[act]).items() if k in KEPT[act])
        full.update(vals)
        ctx.check(set(g.params) == set(full), 'with the retained parameters', (g, full))
        for k in sorted(full):
            ctx.check_close(g.params[k].value, full[k], 'value')
    ctx.check(ranks == sorted(ranks), 'in execution order', out)


HISTORIES = [['G81 X1 Y2 Z-3 R4', '*XY', 'G99', '*Y', 'G91', '*XZ', '*R', 'G90 F5', '*X'],
             ['G1 X1', '*XY', 'M3 S5', '*Z', 'G0', '*X', 'G55', '*XYZ', 'G18', '*Y'],
             ['G83 X5 Z-6 R7 Q2', '*XQ', 'T1 M6', '*X', 'G1 Y2', '*XZ', 'G82 X1 Z-1 R1 P5', '*YP', '*X'],
             ['G3 X1 Y2 R99', '*XYR', 'G4 P1', '*XR', 'G73 X1 Z-2 R2 Q1', '*YL', '*X', 'G80 G0 X1', '*Z']]


@harness('C15', cases=[{'history': i, 'how': h, 'dist': d} for i in range(len(HISTORIES)) for h in ('block', 'gcodes') for d in ('G90', 'G91')],
         bounds='four histories of nine or ten lines, five of them bare words, any values, any one line left out; the machine is where the lines written in full lead')
def history(ctx, case):
    lib = ctx.lib
    start = reals(ctx, 's', 'XYZ', -100, 100)
    m, n = machine(ctx, start, setup=[case['dist']]), machine(ctx, start, setup=[case['dist']])
    lines = list(HISTORIES[case['history']])
    out = ctx.choice('out', [None] + list(range(1, len(lines))))
    if out is not None:
        del lines[out]
    act, kept = None, {}
    for i, t in enumerate(lines):
        if t[0] != '*':
            for w in t.split(' '):
                if w[0] == 'G' and GROUP[w] == 'motion':
                    act, kept = w, dict((k, v) for k, v in params_of(t).items() if k in KEPT[w])
            for x in (m, n):
                x.process_str(t)
            continue
        vals = dict((l, 1 + (i % 2) if l == 'L' else ctx.real('v%d%s' % (i, l), 1, 100)) for l in t[1:])
        if any(l not in PARAMS[act] for l in vals):
            before = state_of(m)
            ctx.must_raise(lambda: m.process_gcodes(modal_params=[lib.Word(l, v) for l, v in vals.items()]), lib.MachineInvalidState, 'refused')
            same_state(ctx, state_of(m), before, 'after a refusal')
            continue
        words = [lib.Word(l, v) for l, v in vals.items()]
        if case['how'] == 'gcodes':
            m.process_gcodes(modal_params=words)
        else:
            b = lib.Block()
            b.modal_params = words
            m.process_block(b)
        full = dict(kept)
        full.update(vals)
        g = code(ctx, act)
        for l in sorted(full):
            g.add_parameter(lib.Word(l, full[l]))
        n.process_gcodes(g)
        kept = dict((k, v) for k, v in full.items() if k in KEPT[act])
        same_state(ctx, state_of(m), state_of(n), 'line %d' % i)


@harness('C15', cases=[{'active': a, 'how': h} for a in sorted(ACTIVE) for h in ('gcodes', 'block', 'clean')],
         bounds='11 active motions; three or four bare words of which one letter is given twice, any values (maybe the same)')
def repeated(ctx, case):
    act = case['active']
    m = fresh(ctx, {'active': act, 'dist': 'G90'}, reals(ctx, 's', 'XYZ'), {}, ctx.boolean('ignore'))
    legal = [l for l in sorted(PARAMS[act]) if l in 'XYZRQ'] if act != 'none' else ['X', 'Y']
    twice, once = ctx.choice('twice', legal), ctx.choice('once', [None] + legal)
    W = ctx.lib.Word
    words = [W(twice, ctx.real('a', -100, 100)), W(twice, ctx.real('b', -100, 100))]
    if once and once != twice:
        words.insert(ctx.choice('at', [0, 1, 2]), W(once, ctx.real('c', -100, 100)))
    before = state_of(m)
    b = ctx.lib.Block()
    b.modal_params = list(words)
    if act == 'none':
        if not m.ignore_invalid_modal:
            ctx.must_raise(lambda: m.process_block(b), ctx.lib.MachineInvalidState, 'no motion is active')
    elif case['how'] == 'clean':
        ctx.must_raise(lambda: m.clean_block(b), ctx.lib.GCodeParameterError, 'a letter given twice is refused, as with the code written out')
    else:
        go = (lambda: m.process_block(b)) if case['how'] == 'block' else (lambda: m.process_gcodes(modal_params=list(words)))
        ctx.must_raise(go, ctx.lib.GCodeParameterError, 'a letter given twice is refused, as with the code written out')
    same_state(ctx, state_of(m), before, 'after a refusal')
