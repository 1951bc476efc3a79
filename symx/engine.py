"""Path exploration: one Engine per (harness, case).

A path is identified by the list of decisions taken at its forks.  The harness is executed once per
path; decisions up to the prefix are replayed, later ones are resolved with z3 and the alternative
is queued.  Exploration ends when the queue is empty (exhaustive within the harness bounds) or the
deadline passes (reported as incomplete)."""
import time
from fractions import Fraction
import z3


class PathAbort(BaseException):
    """The current path cannot continue (infeasible or cut)."""


class Unsupported(BaseException):
    """The engine met an operation it cannot represent."""


class StepLimit(Exception):
    """The code under test did not finish within the step bound."""


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'cut', 'forks', 'queries', 'obligations', 'discharged', 'unknown', 'solver_s')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.concretised = {}
        self.functions = set()
        self.labels = {}
        self.inconclusive = []


CUR = None  # the Engine that is executing a path
STOP = None  # shared by all workers: when to end early because a violation is confirmed (0: not)


def cur():
    return CUR


class Engine(object):
    def __init__(self, fn, deadline=None, query_ms=4000, max_violations=3, hard_ms=20000):
        self.fn = fn
        self._deadline = deadline
        self.query_ms = query_ms
        self.hard_ms = hard_ms
        self.max_violations = max_violations
        self.stats = Stats()
        self.candidates = []   # [{'label','inputs','info'}]
        self.samples = []      # [(inputs, labels)] models of explored paths
        self.want_samples = 0
        self.complete = True
        self.ceil_bound = 12
        self.tick_limit = 400000
        self.sample_limit = 4
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)

    @property
    def deadline(self):
        if STOP is not None and STOP.value:
            return min(STOP.value, self._deadline or STOP.value)
        return self._deadline

    # ------------------------------------------------------------------ exploration
    def explore(self, work=None, slice_s=None):
        """Explores from the given prefixes of decisions (all paths by default) for about slice_s seconds; what is
        left then stays in self.work."""
        global CUR
        self.work = work = [[]] if work is None else work
        n = 0
        t0 = time.time()
        while work:
            if self.deadline and time.time() > self.deadline:
                self.complete = False
                break
            if slice_s and n and time.time() > t0 + slice_s:
                break
            prefix = work.pop(0 if n % 4 == 3 else -1)
            self._start(prefix)
            CUR = self
            aborted = False
            exc = None
            try:
                self.fn(self)
            except PathAbort:
                aborted = True
            except Unsupported as e:
                exc = ('unsupported', '%s' % (e,))
            except RecursionError as e:
                exc = ('unsupported', 'RecursionError')
            except Exception as e:
                exc = ('exception', e)
            if exc is not None:
                self._end_exception(exc)
            if not aborted and self.pending:
                self._flush()
            if not aborted and exc is None and not self.stopped:
                self._sample()
            CUR = None
            n += 1
            if aborted and self.cut_reason is None:
                self.stats.infeasible += 1
            else:
                self.stats.paths += 1
            for alt in reversed(self.alternatives):
                work.append(alt)
            if self.candidates and len(self.candidates) >= self.max_violations:
                self.complete = False
                self.work = []
                break
        return self

    def _start(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.inputs = {}       # name -> (kind, z3 const or python value)
        self.constraints = []
        self.atoms = []
        self.atom_by_key = {}
        self.counter = 0
        self.pending = []      # deferred checks
        self.path_labels = []
        self.memo = {}
        self.subst = {}        # atom -> polynomial (values.learn_zero)
        self.trig = None
        self.cut_reason = None
        self.concretised_here = False
        self.model = None
        self.stopped = False
        self.defined = set()
        self.hash_mode = 'const'
        self.sym_hash = False
        self.sym_keys = False
        self.printed = []
        self.ticks = 0
        self.solver.reset()
        self.solver.set('timeout', self.query_ms)

    def _end_exception(self, exc):
        kind, e = exc
        if kind == 'unsupported':
            self.stats.inconclusive.append('unsupported operation: %s' % e)
            self._candidate('unsupported', {'why': str(e)}, soft=True)
        else:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno or 0) for f in tb[-3:])
            self._candidate('unexpected %s' % type(e).__name__, {'exception': repr_safe(e), 'where': where})

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            self.ticks = 0
            raise StepLimit('no end after %d steps' % self.tick_limit)
        if self.deadline and not self.ticks % 512 and time.time() > self.deadline + 5:
            self.complete = False
            self.cut_reason = 'deadline'
            raise PathAbort()

    def _sample(self):
        """Keep the inputs of some explored paths: they are run on the real code as a check of the encoding."""
        n = self.stats.paths
        if len(self.samples) >= self.sample_limit or not (n in (0, 1) or n & (n - 1) == 0):
            return
        inp = self.model_inputs()
        if inp is not None:
            self.samples.append(inp)

    def defer_def(self, d):
        pass

    def define(self, a):
        """Add the defining constraints of a derived atom the first time a query mentions it."""
        if a.i in self.defined or a.rule is None:
            return
        self.defined.add(a.i)
        from . import values as V
        kind = a.rule[0]
        n = V.atom_num(a)
        if kind == 'sqrt':
            e, s = V.p_z3(a.rule[1])
            z = a.z
            self.add(z >= 0)
            self.add(z * z * V.z3.RealVal(str(s)) == (V.z3.ToReal(e) if e.is_int() else e))
        elif kind == 'frac':
            num, den = a.rule[1], a.rule[2]
            t = V.p_clear(V.p_add(V.p_mul({((a.i, 1),): V.ONE}, den), num, -1)) if False else V.p_add(V.p_mul({((a.i, 1),): V.ONE}, den), num, -1)
            e, s = V.p_z3(_positive_exponents(t))
            self.add(e == 0)
        elif kind == 'minmax':
            x, y = a.rule[1], a.rule[2]
            dx = V.Num(V.p_add({((a.i, 1),): V.ONE}, x, -1), False) == 0
            dy = V.Num(V.p_add({((a.i, 1),): V.ONE}, y, -1), False) == 0
            c = V.Num(V.p_add(x, y, -1), False)
            c = (c <= 0) if a.rule[3] else (c >= 0)
            self.add(V.b_f(V.b_or(V.b_and(c, dx), V.b_and(V.b_not(c), dy))))
        elif kind == 'acos':
            self.add(a.z >= 0)
            self.add(a.z <= V.z3.RealVal('3.14159265358979323847'))

    # ------------------------------------------------------------------ constraints
    def fresh(self, tag):
        self.counter += 1
        return '%s!%d' % (tag, self.counter)

    def add(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathAbort()
            return
        self.constraints.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # one fresh, non-incremental attempt
            s = z3.Solver()
            s.set('timeout', self.hard_ms)
            s.add(*self.constraints)
            if extra:
                s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        else:
            m = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t
        return r, m

    def branch(self, cond):
        """Truth of z3 Bool `cond` on this path (forks when both sides are feasible)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('br', cond.get_id())
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if not isinstance(d, tuple) or d[1] != cond.hash():
                raise Unsupported('a path did not repeat itself at %s' % (cond,))
            self.add(cond if d[0] else z3.Not(cond))
            self.memo[key] = (d[0], cond)
            return d[0]
        if self.deadline and time.time() > self.deadline:
            self.complete = False
            self.cut_reason = 'deadline'
            raise PathAbort()
        first = None
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = m
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            r, m = self._check(cond)
            if r == z3.unsat:
                d = False
                self._decide(d, cond, key, None)
                return d
            first = True
            if r == z3.sat:
                self.model = m
        # first side is (assumed) feasible
        other = z3.Not(cond) if first else cond
        r, m = self._check(other)
        both = (r != z3.unsat)
        if both:
            self.stats.forks += 1
            self.alternatives.append(self.decisions + [(not first, cond.hash())])
        self._decide(first, cond, key, None, keep_model=True, record=both)
        return first

    def _decide(self, d, cond, key, m, keep_model=False, record=False):
        # forced decisions are recorded too: replay stays aligned
        self.decisions.append((d, cond.hash()))
        e = cond if d else z3.Not(cond)
        saved = self.model
        self.constraints.append(e)
        self.solver.add(e)
        if not keep_model:
            self.model = None
        else:
            self.model = saved
        self.memo[key] = (d, cond)

    def choose(self, n):
        """Unconstrained n-way choice (an input with a finite domain)."""
        if n <= 0:
            raise PathAbort()
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d
        for alt in range(1, n):
            self.alternatives.append(self.decisions + [alt])
        self.stats.forks += n - 1
        self.decisions.append(0)
        return 0

    def fork_value(self, expr, limit=200):
        """Enumerate (by forking) every feasible value of z3 Int/Real `expr`; returns a Fraction."""
        e = z3.simplify(expr)
        v = as_fraction(e)
        if v is not None:
            return v
        for _ in range(limit):
            # replayed value decisions carry the candidate value
            i = len(self.decisions)
            if i < len(self.prefix):
                tag, val, taken = self.prefix[i]
            else:
                r, m = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if m is None:
                    raise Unsupported('cannot enumerate values of %s' % (e,))
                val = as_fraction(m.eval(e, model_completion=True))
                if val is None:
                    raise Unsupported('non-rational value')
                taken = True
                r2, m2 = self._check(e != to_z3_num(val, e))
                if r2 != z3.unsat:
                    self.alternatives.append(self.decisions + [('v', val, False)])
                    self.stats.forks += 1
            self.decisions.append(('v', val, taken))
            c = (e == to_z3_num(val, e))
            self.add(c if taken else z3.Not(c))
            if taken:
                return val
        self.complete = False
        self.cut_reason = 'too many values'
        raise PathAbort()

    def concretise(self, expr, why):
        """Fix expr to one feasible value: exploration is no longer exhaustive (recorded)."""
        self.stats.concretised[why] = self.stats.concretised.get(why, 0) + 1
        self.concretised_here = True
        e = z3.simplify(expr)
        v = as_fraction(e)
        if v is not None:
            return v
        m = self._nice_model()
        if m is None:
            raise PathAbort()
        v = as_fraction(m.eval(e, model_completion=True))
        if v is None:
            raise Unsupported('non-rational value')
        # deterministic on replay: no decision is recorded, so record it
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        self.decisions.append(('c', v))
        self.add(e == to_z3_num(v, e))
        return v

    # ------------------------------------------------------------------ obligations
    def reach(self, label):
        self.path_labels.append(label)
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1

    def check(self, cond, label, info=None):
        """cond: z3 Bool or python bool."""
        self.reach(label)
        if isinstance(cond, bool):
            if cond:
                self.stats.obligations += 1
                self.stats.discharged += 1
                return
            self._flush()
            self.stats.obligations += 1
            self._candidate(label, info)
            raise self._cut('violated')
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.obligations += 1
            self.stats.discharged += 1
            return
        self.pending.append((cond, label, info))
        self.stats.obligations += 1

    def _cut(self, why):
        self.cut_reason = why
        return PathAbort()

    def _flush(self):
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        neg = z3.Or([z3.Not(c) for c, _, _ in pend]) if len(pend) > 1 else z3.Not(pend[0][0])
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(neg)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            m = self._pinned(neg)       # a counterexample is often found faster near a known input
            if m is not None:
                for c, label, info in pend:
                    if z3.is_false(m.eval(c, model_completion=True)):
                        self.candidates.append({'label': label, 'inputs': self._read_inputs(m), 'info': info_str(info),
                                                'soft': False, 'concretised': self.concretised_here})
                        return
            r, m = self._check(neg)
        if r == z3.unsat:
            self.stats.discharged += len(pend)
            return
        for c, label, info in pend:
            r, m = self._check(z3.Not(c))
            if r == z3.unsat:
                self.stats.discharged += 1
            elif r == z3.sat:
                self._candidate(label, info, z3.Not(c))
                return
            else:
                self.stats.unknown += 1
                self.stats.inconclusive.append('solver unknown: %s' % label)

    def _pinned(self, neg):
        """A model of the path and neg whose numeric inputs are those of some input of this path, or nearby; or None."""
        terms = [t for n, (k, t) in sorted(self.inputs.items()) if k in ('real', 'int')]
        t0 = time.time()
        base = self.model
        if base is None and self.solver.check() == z3.sat:
            base = self.solver.model()
        found = None
        if base is not None and terms:
            values = [as_fraction(base.eval(t, model_completion=True)) for t in terms]
            for scale in (0, Fraction(1, 10000), Fraction(1, 100), 1, 37):
                s = z3.Solver()
                s.set('timeout', 1000)
                s.add(*self.constraints)
                s.add(neg)
                for i, (t, v) in enumerate(zip(terms, values)):
                    if v is None:
                        continue
                    if t.is_int():
                        s.add(t == int(v))
                    else:
                        v = v + scale * Fraction((i + 1) * 314159 % 100003 * 10 + 7, 1000003)
                        s.add(t == z3.Q(v.numerator, v.denominator))
                self.stats.queries += 1
                if s.check() == z3.sat:
                    found = s.model()
                    break
        self.stats.solver_s += time.time() - t0
        return found

    def _nice_model(self, *extra):
        """A model whose real inputs are short decimals where possible."""
        reals = [t for n, (k, t) in self.inputs.items() if k == 'real']
        if reals:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*self.constraints)
            s.add(*extra)
            for i, t in enumerate(reals):
                s.add(t * 8 == z3.ToReal(z3.Int('nice!%d' % i)))
            t0 = time.time()
            self.stats.queries += 1
            r = s.check()
            self.stats.solver_s += time.time() - t0
            if r == z3.sat:
                return s.model()
        r, m = self._check(*extra)
        return m if r == z3.sat else None

    def model_inputs(self, *extra):
        m = self._nice_model(*extra)
        if m is None:
            return None
        return self._read_inputs(m)

    def _read_inputs(self, m):
        out = {}
        for n, (k, t) in self.inputs.items():
            if k == 'char':
                if t.linked:
                    v = as_fraction(m.eval(t.z, model_completion=True))
                    c = int(v) if v is not None else 0
                    if not (0 <= c < 128 and t.mask >> c & 1):
                        c = nice_char(t.mask)
                else:
                    c = nice_char(t.mask)
                out[n] = {'char': c}
            elif k in ('real', 'int'):
                v = as_fraction(m.eval(t, model_completion=True))
                if v is None:
                    v = Fraction(0)
                if k == 'real':
                    out[n] = {'real': [str(v.numerator), str(v.denominator)], 'approx': float(v)}
                else:
                    out[n] = {'int': int(v)}
            else:
                out[n] = {'choice': t}
        return out

    def _candidate(self, label, info, *extra, **kw):
        inputs = self.model_inputs(*extra)
        if inputs is None:
            r, m = self._check(*extra)
            if r == z3.unsat:
                return      # infeasible after all
            self.stats.unknown += 1
            self.stats.inconclusive.append('no model for candidate: %s' % label)
            return
        self.candidates.append({'label': label, 'inputs': inputs,
                                'info': info_str(info), 'soft': bool(kw.get('soft')),
                                'concretised': self.concretised_here})


def _positive_exponents(p):
    """Multiply out negative exponents (of positive atoms)."""
    from . import values as V
    mins = {}
    for m in p:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return p
    sh = tuple(sorted((a, -e) for a, e in mins.items()))
    return {V.m_mul(m, sh): c for m, c in p.items()}


def nice_char(mask):
    for c in '1a A5.-(':
        if mask >> ord(c) & 1:
            return ord(c)
    for c in list(range(33, 127)) + list(range(128)):
        if mask >> c & 1:
            return c
    return 0


def info_str(info):
    if info is None:
        return ''
    return repr_safe(info)


def repr_safe(x):
    try:
        return repr(x)[:500]
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return '<%s>' % type(x).__name__


def as_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def to_z3_num(fr, like):
    if like.is_int():
        return z3.IntVal(int(fr))
    return z3.RealVal(str(fr))
