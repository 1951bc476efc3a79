"""C30 pygcode-crop."""
from symx.registry import harness
from harness.common import state_of, same_state
from harness.c29 import fill, read, remarks, same_texts

SCRIPT = 'pygcode-crop'

# lines a program is made of; {} is a digit
LINES = ['G0 Z{}', 'G1 X{} Y1 F100', 'X{}', 'Y-{} M3 S5', 'G91 Z-{}', 'G90', 'G91.1 G0 X{}', 'G18 G20', 'G55 X2', '', '(note) Z{} ; c', 'G10 L2 P1 Z-{}', 'G92 ', 'T1 M6 G54',
         '%m%', 'G3 X{} R99', 'G4 P1', 'G80', 'G43 H1 M8', 'G38.2 Z{}', 'G0 A{} X1', 'G19 G1 Z3 X{}', 'N5 G10 L20 P1 X{}', 'G61 G99 G94', 'G59.2 G1 X-{} G40', 'G17.1 X{}']
SHORT = ['G91 X{}', 'Z{} F5', 'G1 Y{} Z-2', 'G0']


class Crop(object):
    """The cropper's promise, from the library's own machine."""
    def __init__(self, ctx, prog):
        self.ctx = ctx
        L = ctx.lib.machine
        self.cls = type('Null', (L.Machine,), {'MODE_CLASS': type('NullMode', (L.Mode,), {'default_mode': ''}), 'axes': set('ABCXYZ')})
        self.lines = read(ctx, prog)
        m = self.cls()
        self.pos = []
        for l in self.lines:
            m.process_block(l.block)
            self.pos.append(dict((a, getattr(m.pos, a)) for a in 'ABCXYZ'))

    def at(self, n):
        """The machine after n lines."""
        m = self.cls()
        for l in self.lines[:n]:
            m.process_block(l.block)
        return m

    def first(self, cond, start, default):
        for i in range(start, len(self.lines)):
            if self.ctx.decide(cond(i + 1, self.pos[i]) if cond else default):
                return i
        return None


OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '': lambda a, b: a == b}


def condition(ctx, terms):
    """terms: (letter, operator, text, value) ..."""
    if not terms:
        return '', None
    text = ''
    for i, (l, o, t, v) in enumerate(terms):
        text = text + (',' if i else '') + l + o + t

    def f(n, pos):
        return ctx.And(*[OPS[o.strip()](n if l.strip() in ('n', 'N', '') else pos[l.upper().strip()], v) for l, o, t, v in terms])
    return text, f


def digit(ctx, name):
    t = ctx.text(name, '0123456789', 1)
    return t, ctx.lib.Word('X' + t).value


def check_crop(ctx, prog, first, last, restored=True):
    """first, last: (text, condition)"""
    spec = first[0] + ':' + last[0]
    out, e = ctx.attempt(ctx.run_script, SCRIPT, [spec], prog)
    ctx.check(e is None, 'the script runs', e)
    c = Crop(ctx, prog)
    a = c.first(first[1], 0, True)
    if a is None:
        ctx.check(len(out) == 0, 'nothing is kept if nothing satisfies the start condition', out)
        return
    b = c.first(last[1], a, False)
    kept = c.lines[a:b]
    ctx.check(len(out) >= len(kept), 'number of lines', out)
    n = len(out) - len(kept)
    # the kept lines
    for x, t in zip(kept, out[n:]):
        y = ctx.lib.line.Line(t)
        ctx.check(len(x.block.gcodes) == len(y.block.gcodes) and len(x.block.modal_params) == len(y.block.modal_params), 'the kept lines', (x, t))
        for g, h in zip(sorted(x.block.gcodes), sorted(y.block.gcodes)):
            ctx.check(type(g) is type(h) and ctx.str(g) == ctx.str(h), 'the kept lines', (x, t))
        same_texts(ctx, [ctx.str(w) for w in x.block.modal_params], [ctx.str(w) for w in y.block.modal_params], 'the kept lines')
    into = read(ctx, out[n:])
    for mac in (True, False):
        same_texts(ctx, remarks(ctx, into, mac), remarks(ctx, kept, mac), 'remarks of the kept lines')
    # the preamble, from anywhere, on a machine with the same offsets
    old = c.at(a)
    m = c.at(a)
    m.mode = m.MODE_CLASS()
    here = dict((k, ctx.real('here_' + k, -100, 100)) for k in 'XYZ')
    m.abs_pos = m.Position(**here)
    plane = old.mode.plane_selection
    up = {'G18': 'Y', 'G19': 'X'}.get(None if plane is None else ctx.str(plane.word), 'Z')
    top = getattr(old.abs_range_max, up)
    pre = read(ctx, out[:n])
    for l in pre:
        ctx.check(not any(isinstance(g, ctx.lib.gcodes.GCodeCannedCycle) for g in l.block.gcodes), 'the preamble drills nothing', l)
        before = dict((k, getattr(m.abs_pos, k)) for k in 'XYZ')
        m.process_block(l.block)
        for k in 'XYZ':
            if k != up:
                ctx.check(ctx.Or(ctx.close(getattr(m.abs_pos, k), before[k], 1e-9),
                                 ctx.And(ctx.close(before[up], top, 0.0006), ctx.close(getattr(m.abs_pos, up), top, 0.0006))),
                          'travels across only at the highest level', l)
    for k in 'XYZ':
        ctx.check_close(getattr(m.pos, k), getattr(old.pos, k), 'position before the first kept line: ' + k, tol=0.0006)
    for k in 'ABC':
        ctx.check_close(getattr(m.pos, k), getattr(old.pos, k), 'angular position before the first kept line: ' + k, tol=0.0006)
    x, y = state_of(m), state_of(old)
    for s in (x, y):
        s['min'] = s['max'] = s['abs'] = {}
    mo = ctx.lib.gcodes.MODAL_GROUP_MAP['motion']
    if mo not in y['mode']:
        x['mode'].pop(mo, None)     # (the program had none yet)
    elif not restored:
        ctx.check(mo in x['mode'] and x['mode'][mo][0] == y['mode'][mo][0], 'an active canned cycle is still active', (x['mode'].get(mo), y['mode'][mo]))
    same_state(ctx, x, y, 'modes before the first kept line')


def cases(tier):
    return [{'first': a, 'second': b} for a in LINES for b in (SHORT[:2] if tier == 'quick' else SHORT + LINES[::3])]


@harness('C30', cases=cases, bounds='two lines of 26 and 2 (thorough: 13) with a symbolic digit each, cropped from each; any place to start from')
def resumes(ctx, case):
    prog = ['G1 X3 Z2 F9', fill(ctx, case['first'], 'a'), fill(ctx, case['second'], 'b'), 'X1']
    if case['first'][0:1] == 'G' and ctx.boolean('no_lead'):
        prog.pop(0)
    ctx.assume(valid(ctx, prog))
    n = ctx.choice('n', list(range(1, len(prog) + 1)) if ctx.tier != 'quick' else [len(prog) - 1, len(prog)])
    check_crop(ctx, prog, (str(n), lambda k, pos: k == n), ('', None))


def valid(ctx, prog):
    r, e = ctx.attempt(lambda: Crop(ctx, prog))
    return e is None


def spec_cases(tier):
    out = []
    for l in ('', 'n', 'X', 'y', 'z', 'A', 'N'):
        for o in ('=', '==', '!=', '<', '<=', '>', '>=') + (('',) if l == '' else ()):
            out.append({'letter': l, 'op': o})
    out += [{'letter': l, 'op': o} for l, o in (('b', '>'), ('B', '!='), ('c', '<='), ('C', '='), (' x ', ' >= '), (' N', ' < '))]
    return out


@harness('C30', cases=spec_cases, bounds='four lines with two symbolic digits; each comparison of each variable with a symbolic digit (maybe with a half or sign), as start or end')
def one_condition(ctx, case):
    l = case['letter'].upper().strip() or 'N'
    a = l if l not in ('N',) else 'X'
    prog = ['G0 X1 Y1 Z1 A1', fill(ctx, 'G0 %s{}' % a, 'p'), 'G91 %s-1 F3' % a, fill(ctx, 'G90 %s{}' % a, 'q')]
    t, v = digit(ctx, 'v')
    neg, half = (False, False) if l == 'N' else (ctx.boolean('neg'), ctx.boolean('half'))
    if half:
        t, v = t + '.5', v + 0.5
    if neg:
        t, v = '-' + t, -v
    cond = condition(ctx, [(case['letter'], case['op'], t, v)])
    end = ctx.boolean('end')
    other = ctx.choice('other', [('', None), ('2', lambda n, pos: n == 2)])
    check_crop(ctx, prog, *((other, cond) if end else (cond, other)))


@harness('C30', cases=[{'a': x, 'b': y} for x in ('x>', 'n>=', 'z<') for y in ('y>=', 'x!=', '')]
         + [{'a': 'x>', 'b': 'y>=', 'c': z} for z in ('z<', 'n<=')], bounds='four lines with two symbolic digits; two (some three) conditions with symbolic digits at the start, at the end or one at each')
def conditions(ctx, case):
    prog = ['G0 X1 Z-1', fill(ctx, 'X{} Y2', 'p'), fill(ctx, 'G1 Y{} X3 F1', 'q'), 'X0 Y0 Z0']
    terms = []
    for k in 'abc':
        if k not in case:
            continue
        if case[k] == '':
            t, v = digit(ctx, 'v' + k)
            terms.append(('', '', t, v))
        else:
            t, v = digit(ctx, 'v' + k)
            terms.append((case[k][0], case[k][1:], t, v))
    how = ctx.choice('how', ['start', 'end', 'each'])
    if how == 'start':
        check_crop(ctx, prog, condition(ctx, terms), ('', None))
    elif how == 'end':
        check_crop(ctx, prog, ('', None), condition(ctx, terms))
    else:
        check_crop(ctx, prog, condition(ctx, terms[:1]), condition(ctx, terms[1:]))


@harness('C30', cases=[{'op': o, 'text': t} for o in ('=', '!=', '<', '<=', '>', '>=') for t in ('0.0000{}', '2.001{}', '-0.0{}', '9999{}', '-12345.0{}')],
         bounds='four lines with two symbolic digits; comparisons of numbers of up to seven digits, differing in the last')
def long_numbers(ctx, case):
    prog = ['G0 X1 Y1 Z1', fill(ctx, 'G0 X' + case['text'], 'p'), 'G91 Y-1', fill(ctx, 'X0 G1 F3', 'q'), fill(ctx, 'G90 X' + case['text'], 'r')]
    d = ctx.text('v', '0123456789', 1)
    t = case['text'].replace('{}', '%s') % d
    cond = condition(ctx, [('x', case['op'], t, ctx.lib.Word('X' + t).value)])
    end = ctx.boolean('end')
    check_crop(ctx, prog, *((('2', lambda n, pos: n == 2), cond) if end else (cond, ('', None))))


@harness('C30', cases=['5', ':5:', 'x:', 'd>5:', 'x>:', '1.5:', 'x>5;y>4:', 'x=>5:', '>', 'n>=2.5:3', 'x>1e5:', 'x>5,:', 'x\nn>1:', '2:n\n3', 'n>1\n+1:', 'x>5,\ny\nz>1:', '\u212a>5:', 'x>5\xb2:'], bounds='eighteen texts that are no range')
def no_range(ctx, case):
    out, e = ctx.attempt(ctx.run_script, SCRIPT, [case], ['G0 X' + ctx.text('a', '0123456789', 1)])
    ctx.check(e is not None and type(e).__name__ == 'ScriptExit', 'refused', (out, e))


@harness('C30', cases=['G81 X1 Y2 Z-1 R2', 'G83 X1 Z-1 R2 Q1'], bounds='cropped while a canned cycle is active')
def inside_a_cycle(ctx, case):
    prog = [fill(ctx, 'G0 Z{}', 'a'), case, 'X4']
    check_crop(ctx, prog, ('3', lambda n, pos: n == 3), ('', None), restored=False)


@harness('C30', cases=[{'program': i, 'first': f} for i in range(3) for f in (2, 4, 5, 8, 10)], bounds='three programs of ten lines with two symbolic digits, from any of five lines, to the end or to any of two; any place to start from')
def long_programs(ctx, case):
    from harness.c29 import LONG
    prog = [fill(ctx, l.replace('X{} ; along', 'X2 ; along').replace('G98 G81 X1 Y1 Z-1 R2', 'G98 G1 X1 Y1 Z-1'), 'v%d' % i) for i, l in enumerate(LONG[case['program']])]
    n = case['first']
    ctx.check(valid(ctx, prog), 'the program can be executed')
    end = ctx.choice('end', [None, n + 1, 9])
    check_crop(ctx, prog, (str(n), lambda k, pos: k == n), ('', None) if end is None or end < n else (str(end), lambda k, pos: k == end))
