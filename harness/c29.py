"""C29 pygcode-norm."""
from symx.registry import harness
from harness.common import state_of, same_state

SCRIPT = 'pygcode-norm'
DEFAULT_MODE = 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0'
FLAGS = {'s': '--singles', 'f': '--full', 'c': '--rm_comments', 'b': '--rm_blanks', 'w': '--rm_whitespace'}

# lines of a program; {} is a digit (or two digits around a point)
LINES = ['G1 X{} F100', 'X{} F2', 'Y2 X{}', 'G91 X{}', 'G90 G0 Z{}', 'M3 S2 X{}', 'T1 M6 X{}', '', '(note) X{}', 'X{} ; tail',
         '%mac%', 'G0 Z{} (c) %m%', 'M5 X{} F3 (d)', 'G3 X{} R99', 'X{} G10 L2 P1', 'X{} G4 P1', 'N5 G20 X{}', 'G10 L2 P1 Z1 (e)',
         'G81 X{} Z-1 R2', 'G98 G81 X{} Z-2 R3', 'Z-3 G10 L2 P1 R{}', 'G80', 'G55 G92.1 X{}', 'M2 X{}', 'G0', 'G18 G40', 'F5 G38.2 Z{} %k']
SECOND = ['X{} F2', 'G91 X{}', 'M3 S2 X{}', 'G0 Z{} (c) %m%', 'X{} G10 L2 P1', 'M2 X{}']


def fill(ctx, line, name, point=False):
    if '{}' not in line:
        return line
    a, b = line.split('{}')
    d = ctx.text(name, '0123456789', 1)
    if point:
        d = d + '.' + ctx.text(name + 'f', '0123456789', 1)
    return a + d + b


def program_machine(ctx, mode=DEFAULT_MODE):
    L = ctx.lib.machine
    return type('M', (L.Machine,), {'MODE_CLASS': type('Mode_', (L.Mode,), {'default_mode': mode})})()


def read(ctx, lines):
    return [ctx.lib.line.Line(l) for l in lines]


def execute(ctx, lines, m=None):
    m = m or program_machine(ctx)
    for l in lines:
        m.process_block(l.block)
    return m


def remarks(ctx, lines, macro):
    return [(l.macro if macro else ctx.str(l.comment.text)) for l in lines if (l.macro if macro else l.comment) is not None]


def spaces(ctx, s):
    return any(ctx.decide(ctx.isin(c, ' \t')) for c in ctx.chars(s))


def same(ctx, b, a, label):
    """Same position, modes and offsets (to the 3 decimals that are printed)."""
    x, y = state_of(b), state_of(a)
    for s in (x, y):
        s['min'] = s['max'] = {}
    same_state(ctx, x, y, label, 0.0006)


def norm(ctx, argv, prog):
    out, e = ctx.attempt(ctx.run_script, SCRIPT, argv, prog)
    ctx.check(e is None, 'the script runs', e)
    return out


def formatting(ctx, flags, prog, out, into):
    """What the formatting options promise of the output."""
    if 's' in flags:
        for l, t in zip(into, out):
            ctx.check(len(l.block.gcodes) + (1 if l.block.modal_params else 0) <= 1, 'one code per line', t)
    if 'f' in flags:
        for l, t in zip(into, out):
            ctx.check(not l.block.modal_params, 'codes are written in full', t)
    if 'b' in flags:
        for t in out:
            ctx.check(len(t) > 0, 'no blank lines', out)
    if 'w' in flags:
        for l, t in zip(into, out):
            if l.comment is None and l.macro is None:
                ctx.check(not spaces(ctx, t), 'no white space in code', t)


def same_texts(ctx, a, b, label):
    ctx.check(len(a) == len(b), label + ': number', (a, b))
    for x, y in zip(a, b):
        ctx.check(x == y, label, (x, y))


def compare(ctx, flags, prog, argv, lines_map=True):
    out = norm(ctx, [FLAGS[f] for f in flags] + argv, prog)
    src, e = ctx.attempt(read, ctx, prog)
    into, e = ctx.attempt(read, ctx, out)
    ctx.check(e is None, 'the output can be read', (e, out))
    a = execute(ctx, src)
    b, e = ctx.attempt(execute, ctx, into)
    ctx.check(e is None, 'the output can be executed', (e, out))
    same(ctx, b, a, 'after the program')
    same_texts(ctx, remarks(ctx, into, True), remarks(ctx, src, True), 'macros')
    same_texts(ctx, remarks(ctx, into, False), [] if 'c' in flags else remarks(ctx, src, False), 'comments')
    formatting(ctx, flags, prog, out, into)
    if lines_map and 's' not in flags and 'b' not in flags:
        ctx.check(len(out) == len(prog), 'line for line', out)


def flag_sets(tier):
    return ['', 's', 'f', 'sf', 'w', 'cb', 'sfcbw', 'sw'] if tier == 'quick' else \
        [''.join(f for i, f in enumerate('sfcbw') if n >> i & 1) for n in range(32)]


def cases(tier):
    return [{'flags': f, 'first': l} for f in flag_sets(tier) for l in LINES]


@harness('C29', cases=cases, bounds='one or two lines of 27 (second: 6; thorough: all) with a symbolic digit each; 8 (thorough: 32) option sets')
def formats(ctx, case):
    prog = [fill(ctx, case['first'], 'a')]
    second = ctx.choice('second', [None] + (SECOND if ctx.tier == 'quick' else LINES))
    if second is not None:
        prog.append(fill(ctx, second, 'b'))
    ctx.assume(valid(ctx, prog))
    compare(ctx, case['flags'], prog, [])


def valid(ctx, prog):
    """Whether the program can be executed at all."""
    r, e = ctx.attempt(lambda: execute(ctx, read(ctx, prog)))
    return e is None


EXPANSION = ('expanded: ', 'linearized arc: ')


def starts(ctx, t, p):
    return len(t) >= len(p) and bool(t[:len(p)] == p)


def expansion(ctx, prog, argv, gone, tol=0.0006):
    """A program with codes replaced by simple ones; -> lines read from the output."""
    out = norm(ctx, argv, prog)
    src = read(ctx, prog)
    into, e = ctx.attempt(read, ctx, out)
    ctx.check(e is None, 'the output can be read', (e, out))
    a = execute(ctx, src)
    b, e = ctx.attempt(execute, ctx, into)
    ctx.check(e is None, 'the output can be executed', (e, out))
    x, y = state_of(b), state_of(a)
    for s in (x, y):
        s['min'] = s['max'] = {}
        s['mode'].pop(ctx.lib.gcodes.MODAL_GROUP_MAP['motion'], None)
    same_state(ctx, x, y, 'after the program', tol)
    for l in into:
        for g in l.block.gcodes:
            ctx.check(not isinstance(g, gone), 'only simple codes are left', g)
    same_texts(ctx, remarks(ctx, into, True), remarks(ctx, src, True), 'macros')
    own = [t for t in remarks(ctx, into, False) if not any(starts(ctx, t, p) for p in EXPANSION)]
    same_texts(ctx, own, remarks(ctx, src, False), 'comments')
    return into


CYCLES = {'G73': 'G73 X{} Y1 Z-1 R2 Q2', 'G81': 'G81 X{} Y1 Z-1 R2', 'G82': 'G82 X{} Y1 Z-1 R2 P1', 'G83': 'G83 X{} Y1 Z-1 R2 Q2',
          'G85': 'G85 X{} Y1 Z-1 R2', 'G89': 'G89 X{} Y1 Z-1 R2 P1'}
# what surrounds the cycle in its line
AROUND = ['{}', 'M3 {} S5', '{} G98 F2 (c) %m%', 'G91 {} L2', 'G90 G99 {}', '{} M2 ; c', 'T1 {}']
AFTER = [None, 'X{} ; again', 'Y2 X{} F3 %m%', 'G91 X{} (c)', 'G80', 'G0 X{}', 'G99', 'G99 X{}', 'G1 Z{}']


def cycle_cases(tier):
    if tier == 'quick':
        return [{'before': b, 'code': c, 'around': a} for b in ('G0 Z{}', 'G99 Z5', 'G91 X{} Z5') for c in sorted(CYCLES) for a in AROUND
                if (c == 'G81' and b == 'G99 Z5') or a == 'G91 {} L2']
    return [{'before': b, 'code': c, 'around': a} for b in ('G0 Z{}', 'G99 Z{}', 'G91 X3 Z{}', 'G55 G98 Z{}') for c in sorted(CYCLES) for a in AROUND]


@harness('C29', cases=cycle_cases, bounds='a move, one of six cycles in 7 (some 2) settings, one of 9 lines after it; a symbolic digit per line; 2 (thorough: 4) option sets')
def cycles(ctx, case):
    prog = [fill(ctx, case['before'], 'a'), fill(ctx, case['around'].replace('{}', CYCLES[case['code']]), 'b')]
    after = ctx.choice('after', AFTER if ctx.tier != 'quick' else AFTER[:4] + ['G99 X4'])
    if after is not None:
        prog.append(fill(ctx, after, 'c'))
    ctx.assume(valid(ctx, prog))
    flags = ctx.choice('flags', [[], ['--full']] if ctx.tier == 'quick' else [[], ['--full'], ['--singles'], ['--singles', '--full', '--rm_whitespace']])
    expansion(ctx, prog, ['--canned_expand'] + flags, ctx.lib.GCodeCannedCycle)


@harness('C29', cases=[{'codes': c} for c in ('G82', 'G81', 'G73,G81')], bounds='two cycles of which the listed ones are expanded')
def chosen_cycles(ctx, case):
    prog = [fill(ctx, 'G0 Z{}', 'a')]
    for i in range(2):
        c = ctx.choice('k%d' % i, ['G81', 'G82', 'G73'])
        prog.append(fill(ctx, CYCLES[c], 'b%d' % i))
        if (ctx.tier != 'quick' or i) and ctx.boolean('again%d' % i):
            prog.append('X4')
    into = expansion(ctx, prog, ['--canned_expand', '--canned_codes', case['codes']], ())
    words = [ctx.str(g.word) for l in into for g in l.block.gcodes if isinstance(g, ctx.lib.GCodeCannedCycle)]
    src = [ctx.str(g.word) for l in read(ctx, prog) for g in l.block.gcodes if isinstance(g, ctx.lib.GCodeCannedCycle)]
    same_texts(ctx, words, [w for w in src if w not in case['codes'].split(',')], 'exactly the listed cycles are expanded')


# relative to the start of the arc: (word, centre or None, end, centre); steps of 10, so that the end is the start's digit with a 1 before it
ARCS = [('G2', 'I5', (10, 0), (5, 0)), ('G3', 'J10', (10, 10), (0, 10)), ('G3', 'R10', (10, 10), (0, 10)), ('G2', 'I3', (0, 0), (3, 0)),
        ('G2', 'R-10', (10, 10), (0, 10))]


def arc_cases(tier):
    quick = tier == 'quick'
    return [{'arc': i, 'dist': d, 'method': m} for i in range(len(ARCS)) for d in ('G90', 'G91') for m in ((None, 'i,O') if quick else (None, 'i', 'o', 'm,i', 'i,o', 'O', 'I,M'))
            if not (quick and d == 'G90' and i in (3, 4))]


@harness('C29', cases=arc_cases, bounds='arcs of 5 shapes at a symbolic place (thorough: in both axes) in both distance modes (set before or in the line), precision 1')
def arcs(ctx, case):
    w, c, (ex, ey), (cx, cy) = ARCS[case['arc']]
    dx = ctx.text('x', '0123456789', 1)
    dy = ctx.text('y', '0123456789', 1) if ctx.tier != 'quick' and case['dist'] == 'G91' else '7'
    same_line = ctx.boolean('same_line')
    prog = ['G0 X' + dx + ' Y' + dy + ' Z1']
    if not same_line:
        prog.append(case['dist'] + ' ' + ctx.choice('pre', ['', 'F5', 'M3']))
    sx, sy = ctx.lib.Word('X' + dx).value, ctx.lib.Word('Y' + dy).value
    if case['dist'] == 'G90':
        line = w + ' X' + ('1' if ex else '') + dx + ' Y' + ('1' if ey else '') + dy + ' ' + c
    else:
        line = w + ' X%d Y%d ' % (ex, ey) + c
    prog.append((case['dist'] + ' M3 ' if same_line else '') + line + ctx.choice('tail', ['', ' M8 (c) %m%']))
    more = ctx.boolean('more')
    if more:
        prog.append('G1 X1' if ctx.boolean('linear') else 'G0 Y1')
    argv = ['--arc_linearize', '--arc_precision', '1'] + (['--arc_lin_method', case['method']] if case['method'] else [])
    into = expansion(ctx, prog, argv, ctx.lib.GCodeArcMove, 0.006)
    m = program_machine(ctx)
    r = ((cx) ** 2 + (cy) ** 2) ** 0.5
    on = False
    ends = []
    for l in into[:-1] if more else into:
        if l.comment is not None and starts(ctx, l.comment.text, 'linearized arc'):
            on = True
        m.process_block(l.block)
        if on and any(isinstance(g, ctx.lib.GCodeLinearMove) for g in l.block.gcodes) or (on and l.block.modal_params):
            d2 = (m.pos.X - (sx + cx)) ** 2 + (m.pos.Y - (sy + cy)) ** 2
            ends.append(d2)
        if any(not isinstance(g, ctx.lib.GCodeLinearMove) for g in l.block.gcodes):
            on = False
    methods = (case['method'] or 'm').lower().split(',')
    method = methods[-1] if w == 'G3' else methods[0]
    low, high = {'i': (0, 0), 'o': (0.05, 1), 'm': (0.025, 0.5)}[method]
    ctx.check(len(ends) > 0, 'the lines follow the arc')
    for d2 in ends[:-1]:
        ctx.check(ctx.And(d2 <= (r + high + 0.01) ** 2, d2 >= (r + low - 0.01) ** 2), 'the lines follow the arc, by the method asked for', (d2, r))
    ctx.check(ctx.And(ends[-1] <= (r + 0.01) ** 2, ends[-1] >= (r - 0.01) ** 2), 'the last line ends on the arc', ends)


FINAL = {'x': '--zero_xy', 'z': '--zero_z', 'm': '--spindle_off'}


@harness('C29', cases=[{'final': f, 'line': l} for f in ('x', 'z', 'm', 'xz', 'xzm') for l in ('G1 X{} Z2', 'G91 Z{}', 'M3 X{}', 'G10 L2 P1 Z{}', 'G81 X{} Z-1 R2', 'G0 Z{} X-1 (c)')],
         bounds='two lines with a symbolic digit each, final actions; rapid_safety_height given (7 or 0) or not')
def finalizing(ctx, case):
    prog = [fill(ctx, case['line'], 'a')]
    b = ctx.choice('b', [None, 'G1 Z-{}', 'G91 G0 X{} Z-2', 'G92.1 Z{}'])
    if b is not None:
        prog.append(fill(ctx, b, 'b'))
    ctx.assume(valid(ctx, prog))
    plain = norm(ctx, [], prog)
    argv = [FINAL[c] for c in case['final']]
    rsh = ctx.choice('rsh', [None, '7', '0'])
    if rsh is not None:
        argv += ['--rapid_safety_height', rsh]
    out = norm(ctx, argv, prog)
    ctx.check(len(out) >= len(plain), 'the program itself is kept')
    same_texts(ctx, out[:len(plain)], plain, 'the program itself is kept')
    m = execute(ctx, read(ctx, plain))
    first = state_of(m)
    top = m.abs2work(m.abs_range_max).Z
    places = [(m.pos.X, m.pos.Y, m.pos.Z)]
    for l in read(ctx, out[len(plain):]):
        for g in l.block.gcodes:
            ctx.check(isinstance(g, (ctx.lib.GCodeRapidMove, ctx.lib.GCodeStopSpindle, ctx.lib.GCodeAbsoluteDistanceMode)), 'final codes', g)
        m.process_block(l.block)
        if (any(isinstance(g, ctx.lib.GCodeRapidMove) for g in l.block.gcodes)):
            places.append((m.pos.X, m.pos.Y, m.pos.Z))
    exp = [places[0]]
    if 'x' in case['final']:
        h = top if rsh is None else int(rsh)
        exp += [(exp[0][0], exp[0][1], h), (0, 0, h)]
    if 'z' in case['final']:
        exp.append((exp[-1][0], exp[-1][1], 0))
    ctx.check(len(places) == len(exp), 'number of final moves', (places, exp))
    for p, q in zip(places, exp):
        for v, w in zip(p, q):
            ctx.check_close(v, w, 'final moves', tol=0.0006)
    if 'm' in case['final']:
        ctx.check(isinstance(m.mode.spindle, ctx.lib.GCodeStopSpindle), 'spindle is off')
    last = state_of(m)
    for s in (first, last):
        for k in ('spindle', 'distance', 'motion'):
            s['mode'].pop(ctx.lib.gcodes.MODAL_GROUP_MAP[k], None)
        s['min'] = s['max'] = s['abs'] = {}
    same_state(ctx, last, first, 'nothing else changes')


@harness('C29', cases=[{'rm': r, 'line': l} for r in ('M6', 'G43,M3', 'T1,G4,G1') for l in ('T1 M6 G0 X{}', 'G43 H1 M3 S{}', 'G1 X{} M3 (c)', 'X{} G4 P1', 'M6 %m%', 'G1 X{}')],
         bounds='two lines of 6, three lists of codes to remove, four option sets')
def removal(ctx, case):
    prog = [fill(ctx, case['line'], 'a'), fill(ctx, ctx.choice('b', ['X{} M6', 'G1 X{}', '(c)']), 'b')]
    flags = ctx.choice('flags', [[], ['--singles'], ['--full'], ['--singles', '--full', '--rm_whitespace']])
    out = norm(ctx, flags + ['--rm_gcodes', case['rm']], prog)
    plain = norm(ctx, flags, prog)      # (decided by `formats`)
    gone = case['rm'].split(',')
    src, into = read(ctx, plain), read(ctx, out)
    keep = [ctx.str(g) for l in src for g in l.block.gcodes if (g.word.letter + str(g.word.value)).split('.')[0] not in gone]
    same_texts(ctx, [ctx.str(g) for l in into for g in l.block.gcodes], keep, 'exactly the listed codes are removed')
    same_texts(ctx, [ctx.str(w) for l in into for w in l.block.modal_params], [ctx.str(w) for l in src for w in l.block.modal_params], 'bare parameters')
    ctx.check(len(out) == len(plain), 'line for line', out)
    same_texts(ctx, remarks(ctx, into, False), remarks(ctx, src, False), 'comments')
    same_texts(ctx, remarks(ctx, into, True), remarks(ctx, src, True), 'macros')


@harness('C29', cases=[{'junk': j, 'line': l} for j in ('E5', 'J2', 'H1 U3') for l in ('X{} # F100', '# Y{} M3', 'F2 # ; c', '# Z{} %m%')],
         bounds='two lines, the first with words nobody understands; options none, full or singles')
def not_understood(ctx, case):
    line, junk = case['line'], case['junk']
    prog = [fill(ctx, line.replace('#', junk), 'a'), fill(ctx, ctx.choice('b', ['X{}', 'G1 X{} Z1']), 'b')]
    clean = [fill(ctx, line.replace('#', ''), 'a') if False else None, prog[1]]
    out = norm(ctx, ['--rm_invalid_modal'] + ctx.choice('o', [[], ['--full'], ['--singles']]), prog)
    d = prog[0]
    k = line.replace('#', junk).index('{}') if '{}' in line else None
    text = line.replace('#', '')
    if '{}' in line:
        p, q = text.split('{}')
        text = p + d[k] + q
    clean[0] = text
    src, into = read(ctx, clean), read(ctx, out)
    a, b = execute(ctx, src), execute(ctx, into)
    same(ctx, b, a, 'after the program')
    same_texts(ctx, remarks(ctx, into, False), remarks(ctx, src, False), 'comments')
    same_texts(ctx, remarks(ctx, into, True), remarks(ctx, src, True), 'macros')


LONG = [['N1 G90 G0 X{} Y1 Z5 (start)', 'M3 S500 F100', '', 'G1 Z-1', 'X{} ; along', 'Y5 F20', 'G91 X-1 %m%', 'G90 G2 X2 Y2 R9', 'G0 Z5', 'M5'],
        ['(head)', 'T2 M6', 'G55 G0 Z9 X{}', 'G98 G81 X1 Y1 Z-1 R2', 'X2', 'Y3 X{} (third)', 'G80 M8', 'G20', 'G4 P1', 'M2'],
        ['G91 G1 X{} F9', 'G18 X1', 'X2 Z1', 'G92 X0', 'X{}', 'G92.1', '%', 'G10 L2 P1 X3', 'G90 X1 (end) %x%', 'M9 G0 X0']]


@harness('C29', cases=lambda tier: [{'program': i, 'flags': f} for i in range(3) for f in flag_sets(tier) + (['sb', 'fw'] if tier == 'quick' else [])],
         bounds='three programs of ten lines with two symbolic digits; 10 (thorough: 32) option sets')
def long_programs(ctx, case):
    prog = [fill(ctx, l, 'v%d' % i) for i, l in enumerate(LONG[case['program']])]
    ctx.check(valid(ctx, prog), 'the program can be executed')
    compare(ctx, case['flags'], prog, [])
