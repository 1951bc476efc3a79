"""C02 Words written out read back as the same word."""
from symx.registry import harness

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
REAL = [l for l in UP if l not in 'GMLNOT']


def back(ctx, w, label):
    t = str_(ctx, w)
    got, e = ctx.attempt(lambda: list(ctx.lib.text2words(t)))
    ctx.check(e is None, label + ': is readable', (t, e))
    ctx.check(len(got) == 1, label + ': reads as one word', (t, got))
    ctx.check(got[0].letter == w.letter, label + ': letter', (t, got))
    return got[0], t


def str_(ctx, w):
    return ctx.str(w)


@harness('C02', cases=[{'letter': l} for l in REAL], bounds='every decimal letter, any real value up to 1e9 either side of zero')
def decimal_values(ctx, case):
    l = case['letter']
    v = ctx.real('v', -10 ** 9, 10 ** 9) if l in 'XF' else ctx.real('v', -10 ** 5, 10 ** 5)
    w = ctx.lib.Word(l, v)
    r, t = back(ctx, w, 'decimal')
    ctx.check_close(r.value, v, 'decimal: value to 3 decimals', tol=0.00050001)
    ctx.check(w.letter == l and w.value == v, 'writing does not change the word')


@harness('C02', cases=[{'letter': l, 'exp': e} for l in 'XFRS' for e in range(0, 13)], bounds='X F R S: three-decimal values of up to 12 digits before the point, exactly, and again after one more round')
def exact(ctx, case):
    e = case['exp']
    v = ctx.decimal('v', 3, 0 if e == 0 else 10 ** (e - 1), 10 ** e)
    if ctx.boolean('negative'):
        v = -v
    w = ctx.lib.Word(case['letter'], v)
    r, t = back(ctx, w, 'exact')
    ctx.check_close(r.value, v, 'exact: value', tol=1e-7)
    ctx.check(ctx.str(r) == t, 'exact: writing again gives the same text', t)


@harness('C02', cases=[{'letter': l} for l in 'GM'], bounds='G and M numbers with up to one decimal up to 99999.9')
def code_numbers(ctx, case):
    v = ctx.decimal('v', 1, 0, 99999)
    r, t = back(ctx, ctx.lib.Word(case['letter'], v), 'code')
    ctx.check_close(r.value, v, 'code: value', tol=1e-9)
    ctx.check(ctx.str(r) == t, 'code: writing again gives the same text', t)


@harness('C02', cases=[{'letter': l} for l in 'LN'], bounds='whole numbers up to 1e12')
def whole_numbers(ctx, case):
    v = ctx.integer('v', 0, 10 ** 12)
    r, t = back(ctx, ctx.lib.Word(case['letter'], v), 'whole')
    ctx.check(r.value == v, 'whole: value', (t, r))


@harness('C02', cases=[{'n': n} for n in range(1, 5)], bounds='tool texts of up to 4 digits; program names of up to 4 characters without blanks at either end')
def texts(ctx, case):
    if ctx.boolean('tool'):
        v = ctx.text('v', '0123456789', case['n'])
        w = ctx.lib.Word('T', v)
    else:
        v = ctx.text('v', 'aX0. %-', case['n'])
        cs = ctx.chars(v)
        if ctx.isin(cs[0], ' ') or ctx.isin(cs[-1], ' '):
            return
        w = ctx.lib.Word('O', v)
    r, t = back(ctx, w, 'text')
    ctx.check(r.value == v, 'text: value', (t, r))
