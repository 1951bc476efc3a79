"""C06 Comments and macros."""
from symx.registry import harness

BLANK = ' \t\r\n'


def join(cs):
    out = ''
    for c in cs:
        out = out + c
    return out


def trim(ctx, cs, left=True, right=True):
    cs = list(cs)
    while left and cs and ctx.isin(cs[0], BLANK):
        cs.pop(0)
    while right and cs and ctx.isin(cs[-1], BLANK):
        cs.pop()
    return cs


def reference(ctx, cs):
    """(code characters, list of (kind, characters)) of a line without macro."""
    code, comments = [], []
    i, n = 0, len(cs)
    while i < n:
        if ctx.isin(cs[i], ';'):
            comments.append((';', trim(ctx, cs[i + 1:])))
            break
        if ctx.isin(cs[i], '('):
            j = i + 1
            while j < n and not ctx.isin(cs[j], ')'):
                j += 1
            if j < n:
                comments.append(('(', cs[i + 1:j]))
                i = j + 1
                continue
        code.append(cs[i])
        i += 1
    return code, comments


def check_comment(ctx, comment, comments, label, text):
    if not comments:
        ctx.check(comment is None, label + ': no comment', (text, comment))
        return
    ctx.check(comment is not None, label + ': there is a comment', text)
    exp = []
    for k, (kind, cs) in enumerate(comments):
        exp += (list('. ') if k else []) + list(cs)
    got = ctx.chars(comment.text)
    if any(kind == ';' for kind, cs in comments):
        got, exp = trim(ctx, got), trim(ctx, exp)
    ctx.check(len(got) == len(exp), label + ': comment text', (text, comment.text))
    ctx.check(join(got) == join(exp), label + ': comment text', (text, comment.text))


def check_code(ctx, got, code, label, text):
    a = [c for c in ctx.chars(got) if not ctx.isin(c, BLANK)]
    b = [c for c in code if not ctx.isin(c, BLANK)]
    ctx.check(len(a) == len(b), label + ': the code is what is outside the comments', (text, got))
    ctx.check(join(a) == join(b), label + ': the code is what is outside the comments', (text, got))


@harness('C06', cases=lambda tier: [{'n': n, 'alphabet': a} for n in range(0, 8 if tier == 'thorough' else 7) for a in ('a1 (;)', 'X(%);.')],
         bounds='every line of up to 6 (thorough: 7) characters over two alphabets with brackets, semicolon, per cent, blank, letters, digits')
def any_line(ctx, case):
    text = ctx.text('t', case['alphabet'], case['n'])
    code, comments = reference(ctx, ctx.chars(text))
    nl = ctx.choice('end', ['', '\n'])
    got, comment = ctx.lib.split_line(text + nl)
    check_code(ctx, got, code, 'line', text)
    check_comment(ctx, comment, comments, 'line', text)


FORMS = ['G1{b} X2', 'G1 X2 {b}', '{b}G1 X2', 'G1{b}X2{b}Y3', '{b}{b}G1 X2', 'G1 X2;{s}', 'G1 X2 ; {s}', ';{s}', '{b}', 'G1{b}X2 ;{s}', '{b} ;{s}', '({s};b) G1 X2',
         'G1 X2 {b}%{m}', '{b}%', 'G1 X2 %{m}%', '%{m}', 'G1 ({s}%) X2', 'G1 X2 ; ({s}%{s})', 'g0x1({s});({s})']


def build(ctx, form):
    """(text, expected words, [comment characters], macro characters or None)"""
    text, n = '', 0
    parts = form.replace('{', '\0{').replace('}', '}\0').split('\0')
    for p in parts:
        if p == '{b}':
            n += 1
            p = '(' + ctx.text('b%d' % n, 'aX1;%( .', ctx.choice('nb%d' % n, [0, 1, 2] if form.count('{b}') > 1 else [0, 1, 2, 3])) + ')'
        elif p in ('{s}', '{m}'):
            n += 1
            p = ctx.text('s%d' % n, 'aX1; .(' if p == '{s}' else 'aX1;( .)', ctx.choice('ns%d' % n, [0, 1, 2] if form.count('{s}') > 1 else [0, 1, 2, 3]))
        text = text + p
    return text


@harness('C06', cases=[{'form': f} for f in FORMS], bounds='19 arrangements of code, comments and macro; comment and macro texts of up to 3 characters')
def line(ctx, case):
    text = build(ctx, case['form'])
    cs = ctx.chars(text)
    # a macro starts at the first % that is not in a bracketed comment
    i, n, macro = 0, len(cs), None
    while i < n:
        if ctx.isin(cs[i], '('):
            j = i + 1
            while j < n and not ctx.isin(cs[j], ')'):
                j += 1
            if j < n:
                i = j + 1
                continue
        if ctx.isin(cs[i], '%'):
            macro = trim(ctx, cs[i:])
            cs = cs[:i]
            break
        i += 1
    code, comments = reference(ctx, cs)
    exp, e = ctx.attempt(lambda: ctx.lib.Block(join(code)))
    line, e2 = ctx.attempt(lambda: ctx.lib.Line(text))
    ctx.check((e is None) == (e2 is None), 'a line is read exactly if its code can be', (text, e, e2))
    if e is not None:
        return
    ctx.check(len(line.block.words) == len(exp.words), 'words of the line', (text, line.block.words))
    for a, b in zip(line.block.words, exp.words):
        ctx.check(a.letter == b.letter and a.value == b.value, 'words of the line', (text, a, b))
    ctx.check(len(line.gcodes) == len(exp.gcodes), 'codes of the line', (text, line.gcodes))
    check_comment(ctx, line.comment, comments, 'line', text)
    if macro is None:
        ctx.check(line.macro is None or len(line.macro) == 0, 'no macro', (text, line.macro))
    else:
        ctx.check(line.macro is not None and len(line.macro) > 0, 'there is a macro', text)
        got = trim(ctx, ctx.chars(line.macro))
        ctx.check(len(got) == len(macro), 'macro text', (text, line.macro))
        ctx.check(join(got) == join(macro), 'macro text', (text, line.macro))


@harness('C06', cases=[{'code': c} for c in ('G1 X2', 'G1X2Y3', 'G81 X1 Z2 R3', 'X1 Y2', 'M6 T1')],
         bounds='five codes with a comment of up to 3 characters put at any place between characters')
def comment_anywhere(ctx, case):
    code = case['code']
    k = ctx.choice('at', range(0, len(code) + 1))
    c = ctx.text('c', 'aX1;%( .', ctx.choice('n', [0, 1, 2, 3]))
    line, e = ctx.attempt(lambda: ctx.lib.Line(code[:k] + '(' + c + ')' + code[k:]))
    exp = ctx.lib.Block(code)
    ctx.check(e is None, 'a comment may stand anywhere', (k, e))
    ctx.check(len(line.block.words) == len(exp.words), 'a comment does not change the words', (k, line.block.words))
    for a, b in zip(line.block.words, exp.words):
        ctx.check(a == b, 'a comment does not change the words', (k, a, b))
    ctx.check(line.comment.text == c and not line.macro, 'the comment is preserved', (k, line.comment))


MANY = ['G1{0}X1{1}Y2{2}Z3{3}F4{4}S5{5}', '{0}{1}{2}{3}{4}', 'N1{0}G90{1}G1{2}X1 Y2 ;{3}', '{0} G1 {1} X1 {2} Y2 {3} Z3 {4} A4 ; {5}', 'x1{0}{1}y2{2}{3}%{4}']


@harness('C06', cases=[{'form': f, 'at': k} for f in MANY for k in range(6) if '{%d}' % k in f],
         bounds='five lines with four to six comments, one of them of up to 4 characters of any kind, some followed by a macro')
def many_comments(ctx, case):
    form, at = case['form'], case['at']
    cs, comments, code, macro = [], [], [], None
    import re
    for p in re.split(r'(\{\d\})', form):
        if not p.startswith('{'):
            cs += list(p)
            if p == '%':
                macro = ['%']
            elif macro is not None:
                macro += list(p)
            else:
                code += [c for c in p if c not in ';%']
                if '%' in p:
                    macro = list(p[p.index('%'):])
            continue
        k = int(p[1])
        semi = bool(cs) and ''.join(c for c in cs if type(c) is str).rstrip().endswith(';')
        if k == at:
            body = ctx.chars(ctx.text('b', 'aX1;( .', ctx.choice('n', [0, 1, 2, 3, 4]))) if macro is None else list('a(b;')
        else:
            body = list(['one', '', 'X3', 'f%g' if not semi else 'f g', ' b ; c', '...'][k])
        if macro is not None:
            cs += body
            macro += body
        elif semi:
            cs += body
            comments.append((';', trim(ctx, body)))
        else:
            cs += ['('] + body + [')']
            comments.append(('(', body))
    line, e = ctx.attempt(lambda: ctx.lib.Line(join(cs)))
    ctx.check(e is None, 'many comments: the line is read', (join(cs), e))
    exp = ctx.lib.Block(join(code))
    ctx.check(len(line.block.words) == len(exp.words), 'many comments: words', (join(cs), line.block.words))
    for a, b in zip(line.block.words, exp.words):
        ctx.check(a == b, 'many comments: words', (a, b))
    check_comment(ctx, line.comment, comments, 'many comments', join(cs))
    if macro is None:
        ctx.check(not line.macro, 'many comments: no macro', line.macro)
    else:
        ctx.check(len(line.macro) == len(macro) and line.macro == join(macro), 'many comments: macro', (line.macro, macro))
