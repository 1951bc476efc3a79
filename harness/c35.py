"""C35 Reading and executing any text works, or is refused with a documented error and no effect."""
from symx.registry import harness
from harness.common import machine, reals, state_of, same_state


def run(ctx, text, setup):
    lib = ctx.lib
    documented = (lib.GCodeWordStrError, lib.GCodeParameterError, lib.GCodeBlockFormatError, AssertionError)
    line, e = ctx.attempt(lambda: lib.Line(text))
    if e is not None:
        ctx.check(isinstance(e, documented), 'a line is refused only with a documented error', (text, e))
        return
    m = machine(ctx, dict(zip('XYZ', (1.0, 2.0, 3.0))), setup=setup)
    before = state_of(m)
    words = list(line.block.words)
    v, e = ctx.attempt(lambda: m.process_block(line.block))
    if e is not None:
        ctx.check(isinstance(e, (lib.exceptions.MachineInvalidState, lib.GCodeParameterError)), 'executing is refused only for an invalid state or a repeated parameter', (text, e))
        if isinstance(e, lib.GCodeParameterError):
            ls = [w.letter for w in line.block.modal_params]
            ctx.check(len(set(ls)) < len(ls), 'a parameter error only for a repeated parameter', (text, e))
        same_state(ctx, state_of(m), before, 'a refused line')
    else:
        ctx.reach('executed')
    ctx.check(len(line.block.words) == len(words), 'executing leaves the words alone', line.block.words)


ALPHABETS = {'codes': 'GM.12 ', 'motion': 'G1X2-.', 'bare': 'XZ1-N ', 'marks': 'G1(;)%', 'letters': 'GMXRLTSF0', 'lower': 'g0xm5\t', 'cycle': 'G83RZQ', 'lines': 'G1X\n ('}
SETUP = {'none': [], 'cycle': ['G83 X1 Z-2 R3 Q1'], 'off': ['G80'], 'inc': ['G91', 'G55'], 'uv': ['G17.1 G99', 'G81 X1 Z-2 R3'], 'r': ['G18 G99', 'G83 X1 Y-2 R3 Q1']}


@harness('C35', cases=lambda tier: [{'alphabet': a, 'n': n} for a in sorted(ALPHABETS) for n in range(0, 5 if tier == 'quick' else 6)],
         bounds='every text of up to 4 (thorough: 5) characters over eight alphabets of six to nine characters (one with line ends), read and executed on a default machine')
def any_text(ctx, case):
    run(ctx, ctx.text('t', ALPHABETS[case['alphabet']], case['n']), [])


CODED = ['G{d}', 'G{d}{d}', 'G{d}{d}.{d}', 'M{d}{d}', 'M{d}{d}{d}', 'G{d}{d} X1', 'X1 G{d}{d} Y2', 'G{d}{d} P1', 'L2 P{d} G10 X1', 'G10 L{d} P{d} X1', 'M6{d} T2',
         'G8{d} X1 Z-1 R2 L{d}', 'G{d}{d} M{d}{d}', 'T{d} F{d} S{d}', 'N{d} O{d}', 'G{d} R{d} Q1', 'P{d} Z1', 'G9{d}.{d} X1', 'M{d} G9{d} R1', 'F{d} G9{d} Y1', 'G5{d} M{d} X1 R2']


@harness('C35', cases=[{'form': f, 'setup': s} for f in CODED for s in sorted(SETUP)], bounds='21 forms of lines with symbolic digits, executed on machines in six states')
def any_code(ctx, case):
    text, k = '', 0
    for p in case['form'].replace('{d}', '\0{\0').split('\0'):
        if p == '{':
            k += 1
            p = ctx.char('d%d' % k, '0123456789')
        text = text + p
    run(ctx, text, SETUP[case['setup']])


# letters that fold to or from ASCII ones, digits, blanks, line separators and others
ODD = ['\u212a', '\u0130', '\u017f', '\u0131', '\xe9', '\xb2', '\u0663', '\xa0', '\u2028', '\x85', '\x1c', '\ufeff', '\U0001d7d9', '\x00', '\x7f']
PLACES = ['{o}{d}', 'G1 X{d}{o}', 'G1 X{d} {o}{d}', '{o}G1 X{d}', 'G1 X{o}{d}', 'X{d} {o} Y{d}', 'N{d}{o}', 'G1 (a{o}) X{d}', 'G1 (a{o}', 'X{d} ;{o}', 'X{d} %{o}', '%{o}', 'F{d}{o}{d}', 'G{o}', 'M{d}{o}', 'T{d}.{o}', 'S-{o}{d}', '{o}']


@harness('C35', cases=[{'place': p, 'setup': s} for p in PLACES for s in ('none', 'cycle')],
         bounds='fifteen characters beyond (printable) ASCII at eighteen places of a line with symbolic digits, executed on machines in two states')
def beyond_ascii(ctx, case):
    odd = ctx.choice('odd', ODD)
    text, k = '', 0
    for p in case['place'].replace('{d}', '\x01\x02\x01').replace('{o}', '\x01\x03\x01').split('\x01'):
        if p == '\x02':
            k += 1
            p = '7' if odd.isdecimal() else ctx.char('d%d' % k, '0123456789')
        elif p == '\x03':
            p = odd
        text = text + p
    run(ctx, text, SETUP[case['setup']])


@harness('C35', cases=[{'line': t, 'setup': s} for t in ('{}', 'G1 X1 {}', 'G10 L2 P1 {}', 'G2 X1 I1 {}', 'G91 G1 Y1 {}', 'G83 X1 Z-1 R2 Q1 {}') for s in ('none', 'inc', 'uv')],
         bounds='numbers of 16 to 5000 digits after every letter (but the loop count of a cycle), in six lines on machines in three states')
def huge(ctx, case):
    l = ctx.choice('letter', [l for l in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if l != 'L' or case['line'].startswith(('G1 X', 'G2', 'G91')) and case['setup'] != 'uv'])
    n = ctx.choice('digits', [16, 25, 306, 307, 308, 309, 400, 4300, 4301, 5000])
    run(ctx, case['line'].format(l + ctx.choice('number', ['1' + '0' * (n - 1), '9' * n, '-' + '9' * n, '9' * n + '.9'])), SETUP[case['setup']])
