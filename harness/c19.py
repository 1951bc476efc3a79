"""C19 An expanded canned cycle drills exactly the hole asked for, safely."""
from symx.registry import harness
from harness.common import code
from harness.c18 import CYCLES, setup, expand, cycle_cases

EPS = 1e-6


def max_pecks(ctx, n):
    return (3 if n == 1 else 2) if ctx.tier == 'quick' else (6 if n == 1 else 2)


def drill_cases(tier):
    out = cycle_cases(tier)
    for c in ('G73', 'G83'):
        for d in ('G90', 'G91'):
            out.append({'code': c, 'plane': 'G17', 'dist': d, 'ret': 'G99', 'L': None, 'named': 'X', 'eighths': True})
            if tier == 'thorough':
                out.append({'code': c, 'plane': 'G17', 'dist': d, 'ret': 'G98', 'L': 2, 'named': 'X', 'eighths': True})
    return out


@harness('C19', cases=drill_cases, bounds='six cycles, both distance modes, both return modes, L up to 3, any subset of X Y; holes of up to 3 pecks (thorough: 6), 2 if repeated; any start, not below the bottom of the hole when returning to it (G98); '
         'holes at least 0.001 deep that are at least 0.001 off a multiple of the peck, or exact multiples with all levels in eighths')
def drilling(ctx, case):
    case_ = dict(case, dist='G90', ret='G98') if case['dist'] == 'none' else case
    n = max(1, case['L'] or 1)
    pecks = max_pecks(ctx, n)
    g, start, p = setup(ctx, case_, pecks)
    inc = case_['dist'] == 'G91'
    R = start['Z'] + p['R'] if inc else p['R']
    depth = R + p['Z'] if inc else p['Z']
    q = abs(p['Q']) if 'Q' in p else None
    ctx.assume(R - depth >= 0.001)
    if q is not None:
        for k in range(1, pecks + 1):
            ctx.assume(ctx.Or(case.get('eighths', False), R - depth >= q * k + 0.001, R - depth <= q * k - 0.001))
    if case_['ret'] == 'G98':
        ctx.assume(start['Z'] >= depth)
    holes = []
    hole = dict((a, start[a]) for a in 'XY')
    for i in range(n):
        hole = dict((a, (hole[a] + p[a] if inc else p[a]) if a in p else hole[a]) for a in 'XY')
        holes.append(hole)
    cur = dict(start)
    done = 0            # holes fed to the full depth
    drilled = None      # how far the hole is drilled that the drill is over
    raised = True       # since the last feed
    at_bottom = finished = False
    dwells = 0
    for h in expand(ctx, case, g, start):
        if isinstance(h, ctx.lib.GCodeDwell):
            ctx.check(case['code'] in ('G82', 'G89'), 'a dwell nobody asked for', h)
            ctx.check(at_bottom, 'the dwell is at the bottom of the hole', h)
            ctx.check(h.P is not None, 'the dwell has a time', h)
            if 'P' in p:
                ctx.check_close(h.P, p['P'], 'the dwell takes the time commanded')
            dwells += 1
            continue
        rapid = isinstance(h, ctx.lib.GCodeRapidMove)
        ctx.check(rapid or isinstance(h, ctx.lib.GCodeLinearMove), 'rapid and linear moves only', h)
        ctx.check(set(h.params) <= set('XYZ'), 'only X Y Z are moved', h)
        to = dict(cur)
        for a in sorted(h.params):
            v = h.params[a].value
            to[a] = to[a] + v if inc else v
        across = [a for a in 'XY' if a in h.params]
        if across:
            if not ctx.decide(ctx.And(*[ctx.close(to[a], cur[a]) for a in across])):
                ctx.check(rapid, 'travel is rapid', h)
                ctx.check(ctx.And(cur['Z'] >= R - EPS, to['Z'] >= R - EPS), 'travel is at or above the R level', (cur, to))
                if inc or finished:
                    drilled = None
        if 'Z' not in h.params:
            cur = to
            continue
        up = ctx.decide(to['Z'] > cur['Z'] + EPS)
        if up:
            ctx.check(rapid or case['code'] in ('G85', 'G89'), 'only boring cycles feed out', h)
            if not rapid:
                ctx.check(finished, 'feeds out of a finished hole')
                ctx.check_close(to['Z'], R, 'feeds out to the R level')
            if rapid and case['code'] in ('G85', 'G89') and at_bottom:
                ctx.check(cur['Z'] >= R - EPS, 'boring cycles feed out to the R level', cur)
            if case['code'] != 'G83' or finished or ctx.decide(to['Z'] >= R - EPS):
                raised = True       # (G83 only at the R level)
            at_bottom = False
        elif rapid:
            ok = to['Z'] >= R - EPS
            if drilled is not None:
                ok = ctx.Or(ok, to['Z'] >= drilled - EPS)
            ctx.check(ctx.Or(ctx.close(to['Z'], cur['Z']), ok), 'rapid moves go down no further than R or what is drilled', (to, drilled))
        else:
            if finished:
                drilled, finished = None, False     # the next hole
            ctx.check(done < n, 'one hole per repeat', (done, n))
            ctx.check(to['Z'] >= depth - EPS, 'never below the depth', (to, depth))
            for a in 'XY':
                ctx.check_close(to[a], holes[done][a], 'drills at the hole: ' + a)
            ctx.check(raised, 'retracts between feeds')
            if drilled is not None:
                ctx.check(cur['Z'] <= drilled + 1, 'goes on from close above what is drilled', (cur, drilled))
            if q is not None:
                ctx.check(to['Z'] >= (R if drilled is None else drilled) - q - EPS, 'at most Q per feed', (to, drilled))
            else:
                ctx.check_close(to['Z'], depth, 'one feed to the full depth')
            drilled, raised = to['Z'], False
            if ctx.decide(ctx.close(to['Z'], depth)):
                done += 1
                finished = at_bottom = True
        cur = to
    ctx.check(done == n, 'one hole per repeat, to the full depth', (done, n))
    ctx.check(dwells == (n if case['code'] in ('G82', 'G89') else 0), 'one dwell per hole', (dwells, n))


@harness('C19', cases=[{'code': c, 'plane': pl, 'dist': d, 'ret': 'G99', 'L': None, 'named': 'XY'} for c in sorted(CYCLES) for pl in ('G17', 'none') for d in ('G90', 'G91')],
         bounds='any hole whose bottom is above its R level; pecks of nothing; with and without a repeat count')
def refused(ctx, case):
    start = dict((a, ctx.real('s_' + a, -1000, 1000)) for a in 'XYZ')
    R, Z = ctx.real('R', -1000, 1000), ctx.real('Z', -1000, 1000)
    g = code(ctx, case['code'])
    W = ctx.lib.Word
    for l, v in (('X', 1.0), ('Y', 2.0), ('R', R), ('Z', Z)):
        g.add_parameter(W(l, v))
    loops = ctx.choice('L', [None, 1, 2])
    if loops:
        g.add_parameter(W('L', loops))
    q = CYCLES[case['code']]
    if q == 'Q' and ctx.boolean('bad_q'):
        if ctx.boolean('zero_q'):
            g.add_parameter(W('Q', 0.0))
        ctx.assume(R > 0)
        ctx.assume(Z < 0)
        ctx.must_raise(lambda: next(iter(expand(ctx, case, g, start))), ctx.lib.GCodeParameterError, 'a peck of nothing is refused')
        return
    for l in q:
        g.add_parameter(W(l, 1.0))
    ctx.assume((R if case['dist'] == 'G90' else 0) < Z)
    ctx.must_raise(lambda: next(iter(expand(ctx, case, g, start))), NotImplementedError, 'drilling upward is refused before any move')


@harness('C19', cases=[{'code': c, 'plane': pl, 'dist': d, 'ret': r, 'what': w} for c in sorted(CYCLES) + ['G76'] for d in ('G90', 'G91') for r in ('G98', 'none')
                       for w, pl in (('plane', 'G18'), ('plane', 'G19'), ('plane', 'G17.1'), ('plane', 'G19.1'), ('missing', 'G17'), ('threading', 'G17')) if (c == 'G76') == (w == 'threading')],
         bounds='any values; other planes, no R, no Z, threading cycles')
def not_expanded(ctx, case):
    start = dict((a, ctx.real('s_' + a, -1000, 1000)) for a in 'XYZ')
    g = code(ctx, case['code'])
    left_out = ctx.choice('left_out', ['R', 'Z', 'RZ']) if case['what'] == 'missing' else ''
    for l in 'XYRZ' + CYCLES.get(case['code'], 'PQ'):
        if l not in left_out:
            v = ctx.real('v_' + l, -1000, 1000)
            ctx.assume(v > 0 if l in 'PQR' else v < 0 if l == 'Z' else True)
            g.add_parameter(ctx.lib.Word(l, v))
    loops = ctx.choice('L', [None, 2])
    if loops:
        g.add_parameter(ctx.lib.Word('L', loops))
    E = ctx.lib.GCodeParameterError if case['what'] == 'missing' else NotImplementedError
    ctx.must_raise(lambda: next(iter(expand(ctx, case, g, start))), E, 'refused before any move')
