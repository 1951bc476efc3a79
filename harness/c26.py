"""C26 Splitting code lists."""
from symx.registry import harness
from harness.common import codes

BASES = ['GCodeMotion', 'GCodeRapidMove', 'GCodeStartSpindle', 'GCodeStartSpindleCW', 'GCodeCannedCycle', 'GCode', 'GCodeFeedRate']
ITEMS = ['G0 X1', 'G1 Y2', 'M3', 'M4', 'G81 Z1', 'F100', 'M30', 'G91']


def judge(ctx, given, order, cls, out, label):
    ctx.check(len(out) == 3, label + ': three lists', out)
    a, b, c = out
    flat = list(a) + list(b) + list(c)
    ctx.check(len(flat) == len(order) and all(x is y for x, y in zip(flat, order)), label + ': every code once and in order', out)
    first = [i for i, g in enumerate(order) if isinstance(g, cls)]
    if first:
        ctx.check(len(b) == 1 and len(a) == first[0], label + ': the middle list holds the first code of the class', out)
    else:
        ctx.check(len(b) == 0 and len(c) == 0, label + ': everything is in the first list', out)


@harness('C26', cases=lambda tier: [{'n': n, 'sort': s} for n in range(0, 6 if tier == 'thorough' else 5) for s in (True, False, None)],
         bounds='lists of 0 to 4 (thorough 5) codes with any execution orders, class memberships any of three')
def any_orders(ctx, case):
    n = case['n']
    G = ctx.lib.GCode
    A = type('A', (G,), {'default_word': ctx.lib.Word('G', 1)})
    B = type('B', (A,), {})
    C = type('C', (G,), {'default_word': ctx.lib.Word('G', 2)})
    given = []
    for i in range(n):
        g = ctx.choice('class%d' % i, [A, B, C])()
        g.exec_order = ctx.integer('order%d' % i, 0, 999)
        given.append(g)
    cls = ctx.choice('splitter', [A, B])
    lst = list(given)
    if case['sort'] is None:
        out = ctx.lib.split_gcodes(lst, cls)
    else:
        out = ctx.lib.split_gcodes(lst, cls, sort_list=case['sort'])
    ctx.check(len(lst) == n and all(x is y for x, y in zip(lst, given)), 'the given list is unchanged')
    if case['sort'] is False:
        order = given
    else:
        order = []
        for g in given:
            i = len(order)
            while i and ctx.decide(g.exec_order < order[i - 1].exec_order):
                i -= 1
            order.insert(i, g)
    judge(ctx, given, order, cls, out, 'split')


@harness('C26', cases=[{'base': b} for b in BASES], bounds='lists of up to 4 different real codes of 8, seven splitter classes, sorted or as given')
def real_codes(ctx, case):
    cls = getattr(ctx.lib, case['base'])
    left = list(ITEMS)
    given = []
    for i in range(4):
        w = ctx.choice('code%d' % i, [None] + left)
        if w is None:
            break
        left.remove(w)
        given += codes(ctx, w)
    sort = ctx.boolean('sort')
    lst = tuple(given) if not sort and ctx.boolean('tuple') else list(given)
    out = ctx.lib.split_gcodes(lst, cls, sort)
    ctx.check(len(lst) == len(given) and all(x is y for x, y in zip(lst, given)), 'the given list is unchanged')
    rank = {'G0': 242, 'G1': 242, 'M3': 90, 'M4': 90, 'G81': 242, 'F100': 40, 'M30': 250, 'G91': 210}
    order = given
    if sort:
        order = sorted(given, key=lambda g: rank[g.word.letter + '%g' % g.word.value])
    judge(ctx, given, order, cls, out, 'split')


RANK = {'G0': 242, 'G1': 242, 'M3': 90, 'M4': 90, 'G81': 242, 'F100': 40, 'M30': 250, 'G91': 210}


@harness('C26', cases=[{'base': b, 'turn': t} for b in BASES for t in range(8)], bounds='sixteen real codes (eight, twice), any two exchanged, from eight arrangements; seven splitter classes')
def long_list(ctx, case):
    words = [w for w in ITEMS[case['turn']:] + ITEMS[:case['turn']]]
    words = words + words[::-1]
    i = ctx.choice('i', list(range(16)))
    j = ctx.choice('j', [0, 3, 8, 15])
    words[i], words[j] = words[j], words[i]
    given = [codes(ctx, w)[0] for w in words]
    sort = ctx.boolean('sort')
    out = ctx.lib.split_gcodes(list(given), getattr(ctx.lib, case['base']), sort)
    order = sorted(given, key=lambda g: RANK[g.word.letter + '%g' % g.word.value]) if sort else given
    judge(ctx, given, order, getattr(ctx.lib, case['base']), out, 'split')
