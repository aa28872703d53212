"""Path-exhaustive symbolic execution engine (re-execution DFS over z3).

A scenario function is run again and again; every time the (instrumented) code
under test asks for the truth value of a symbolic expression the engine decides
with the solver which outcomes are possible under the current path condition
and remembers the alternatives that are still open.  The exploration ends when
no alternative is left, i.e. when every feasible path within the declared input
domain was executed.
"""
import math
import time
from fractions import Fraction

import z3


class EngineSignal(BaseException):
    """Control-flow signals of the engine; never caught by code under test."""


class PathEnd(EngineSignal):
    """This path is over (assumption unsatisfiable, check failed for good...)"""


class Unsupported(EngineSignal):
    """An operation the encoding does not model."""


class Nondeterminism(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


class PathTimeout(EngineSignal):
    """One path ran for too long (possible non-termination)"""


BRANCH, CHOICE, CONC, ASSUME, CHECK = 'branch choice conc assume check'.split()


_ATOMS = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=',
          z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}
_JUNCTIONS = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES)


def _linear(expr, factor, terms):
    """Add factor * expr to terms {id: [coefficient, integer term]}, where
    the constant has id None; False if it is not linear in integers"""
    if z3.is_rational_value(expr):
        terms[None][0] += factor * expr.as_fraction()
        return True
    if not z3.is_app(expr):
        return False
    kind = expr.decl().kind()
    if kind == z3.Z3_OP_TO_REAL:
        arg = expr.arg(0)
        terms.setdefault(arg.get_id(), [0, arg])[0] += factor
        return True
    if kind == z3.Z3_OP_ADD:
        return all(_linear(c, factor, terms) for c in expr.children())
    if kind == z3.Z3_OP_SUB:
        first = expr.arg(0)
        return _linear(first, factor, terms) and all(
            _linear(c, -factor, terms) for c in expr.children()[1:])
    if kind == z3.Z3_OP_UMINUS:
        return _linear(expr.arg(0), -factor, terms)
    if kind == z3.Z3_OP_MUL and expr.num_args() == 2 and \
            z3.is_rational_value(expr.arg(0)):
        return _linear(expr.arg(1), factor * expr.arg(0).as_fraction(),
                       terms)
    return False


def integral(expr):
    """The same formula with every comparison of reals that are rational
    multiples of integers written as a comparison of integers; the solver
    decides those without searching the integers one by one"""
    if not z3.is_app(expr):
        return expr
    kind = expr.decl().kind()
    if kind in _JUNCTIONS:
        old = expr.children()
        new = [integral(c) for c in old]
        if all(a is b for a, b in zip(old, new)):
            return expr
        return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or,
                z3.Z3_OP_NOT: z3.Not,
                z3.Z3_OP_IMPLIES: z3.Implies}[kind](*new)
    if kind not in _ATOMS or not z3.is_real(expr.arg(0)):
        return expr
    terms = {None: [Fraction(0), None]}
    if not (_linear(expr.arg(0), Fraction(1), terms) and
            _linear(expr.arg(1), Fraction(-1), terms)):
        return expr
    limit = -terms.pop(None)[0]
    terms = [(c, t) for c, t in terms.values() if c]
    if not terms:
        return z3.simplify(expr)
    scale = Fraction(1)
    for c, _t in terms:
        scale = scale * (c * scale).denominator
    common = 0
    for c, _t in terms:
        common = math.gcd(common, int(c * scale))
    scale /= common
    limit *= scale
    total = z3.Sum([z3.IntVal(int(c * scale)) * t for c, t in terms])
    op = _ATOMS[kind]
    if op == '==':
        out = total == int(limit) if limit.denominator == 1 else \
            z3.BoolVal(False)
    elif op == '<=':
        out = total <= math.floor(limit)
    elif op == '<':
        out = total <= math.ceil(limit) - 1
    elif op == '>=':
        out = total >= math.ceil(limit)
    else:
        out = total >= math.floor(limit) + 1
    return z3.simplify(out)


class Entry(object):
    __slots__ = ('kind', 'key', 'outcome', 'pending', 'npush', 'expr', 'extra')

    def __init__(self, kind, key, outcome, pending, npush, expr=None,
                 extra=None):
        self.kind = kind
        self.key = key
        self.outcome = outcome
        self.pending = pending          # list of outcomes still to explore
        self.npush = npush              # number of solver frames pushed
        self.expr = expr
        self.extra = extra


ENGINE = None                            # the active engine (symbolic mode)


class Engine(object):

    def __init__(self, timeout_ms=20000, conc_limit=3):
        self.timeout_ms = timeout_ms
        self.conc_limit = conc_limit
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0,
                          unknown=0, infeasible=0, concretised=0,
                          truncated=0, checks=0, check_queries=0,
                          unsupported=0, nondet=0)
        self.notes = {}
        self.labels = {}
        self._memo = {}
        self._fresh_solver()
        self.trail = []
        self.pos = 0
        self.forced = []
        self.fpos = 0
        self.model = None
        self.violations = []
        self.inputs = []
        self.observed = []
        self.path_flags = set()
        self.nround = 0
        self.covers = {}
        self.dead = False
        self.max_decisions = 4000

    def die(self, exc):
        """Raise an engine signal; later decisions on this path (from
        ``finally`` blocks of the code under test) raise it again"""
        self.dead = exc
        raise exc

    def _alive(self):
        if self.dead:
            raise self.dead
        if self.pos > self.max_decisions:
            self.die(Unsupported('more than %d decisions on a path'
                                 % self.max_decisions))

    def simp(self, expr):
        """z3.simplify with a memo that keeps the raw expression alive, so
        that its id is stable over the re-executions"""
        got = self._memo.get(expr.get_id())
        if got is None:
            got = (expr, integral(z3.simplify(expr)))
            self._memo[expr.get_id()] = got
        return got[1]

    # -- solver ------------------------------------------------------------
    def _fresh_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)

    def _check(self, *assumptions):
        start = time.time()
        self.stats['queries'] += 1
        res = self.solver.check(*assumptions)
        if res == z3.unknown:
            # one retry on a fresh, non-incremental solver
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 3)
            s.add(self.solver.assertions())
            for a in assumptions:
                s.add(a)
            self.stats['queries'] += 1
            res = s.check()
            model = s.model() if res == z3.sat else None
        else:
            model = self.solver.model() if res == z3.sat else None
        self.stats['solver_s'] += time.time() - start
        if res == z3.unknown:
            self.stats['unknown'] += 1
        return res, model

    def _push(self, expr):
        self.solver.push()
        self.solver.add(expr)

    def _get_model(self):
        if self.model is None:
            res, model = self._check()
            if res == z3.unsat:
                self.die(PathEnd())
            if res == z3.unknown:
                self.die(Unsupported('unknown path condition'))
            self.model = model
        return self.model

    # -- trail -------------------------------------------------------------
    def _replayed(self, kind, key):
        """Entry already on the trail at this position, if any"""
        self._alive()
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent.kind != kind or ent.key != key:
                self.die(Nondeterminism('%s/%s vs %s/%s' % (
                    ent.kind, ent.key, kind, key)))
            self.pos += 1
            return ent
        return None

    def _next_forced(self):
        if self.fpos < len(self.forced):
            val = self.forced[self.fpos]
            self.fpos += 1
            return True, val
        return False, None

    def _append(self, ent):
        self.trail.append(ent)
        self.pos += 1

    def fresh_real(self, prefix):
        """An unnamed real variable of this path"""
        self.fresh += 1
        return z3.Real('%s#%d' % (prefix, self.fresh))

    # -- public: decisions ---------------------------------------------------
    def branch(self, expr):
        """Decide the truth value of a z3 Bool on this path"""
        if expr is True or expr is False:
            return expr
        raw = expr
        expr = self.simp(raw)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = raw.get_id()
        if key in self.path_cache:
            return self.path_cache[key]
        ent = self._replayed(BRANCH, key)
        if ent is not None:
            self.path_cache[key] = ent.outcome
            return ent.outcome
        self.stats['decisions'] += 1
        forced, val = self._next_forced()
        if forced:
            self._push(expr if val else z3.Not(expr))
            self.model = None
            self._append(Entry(BRANCH, key, val, [], 1, expr, raw))
            self.path_cache[key] = val
            return val
        model = self._get_model()
        here = z3.is_true(model.eval(expr, model_completion=True))
        other_expr = z3.Not(expr) if here else expr
        res, _other = self._check(other_expr)
        pending = [] if res == z3.unsat else [not here]
        self._push(expr if here else z3.Not(expr))
        self._append(Entry(BRANCH, key, here, pending, 1, expr, raw))
        self.path_cache[key] = here
        return here

    def choose(self, name, n):
        """Multi-way decision over a fresh solver variable 0 <= name < n"""
        var = z3.Int(name)
        ent = self._replayed(CHOICE, name)
        if ent is not None:
            return ent.outcome
        self.stats['decisions'] += 1
        forced, val = self._next_forced()
        if forced:
            pending = []
        else:
            val, pending = 0, list(range(1, n))
        self._push(var == val)
        self.model = None
        self._append(Entry(CHOICE, name, val, pending, 1, var))
        return val

    def rounded(self, why):
        """Should this path go on with the unrounded result of a float
        operation?  Both ways are explored; what the unrounded one reports
        counts when the replay on the real code confirms it."""
        self.nround += 1
        if self.nround > 40:
            return False
        if self.choose('rounded.%d' % self.nround, 2):
            self.path_flags.add('rounded')
            return True
        return False

    def concretise(self, expr, why, limit=None, exact=False):
        """Fix a symbolic expression to one of its feasible values.

        Up to ``limit`` different values are explored; when more exist the
        path is recorded as truncated (outside the claim)."""
        raw = expr
        expr = self.simp(raw)
        if (z3.is_int_value(expr) or z3.is_rational_value(expr) or
                z3.is_true(expr) or z3.is_false(expr)):
            return expr
        key = raw.get_id()
        limit = limit or self.conc_limit
        ent = self._replayed(CONC, key)
        if ent is None:
            self.stats['decisions'] += 1
            if not exact:
                self.stats['concretised'] += 1
                self.notes[why] = self.notes.get(why, 0) + 1
            forced, val = self._next_forced()
            if forced:
                seen, frames = val, len(val)
                for other in seen[:-1]:
                    self._push(expr != self._const(expr, other))
                self._push(expr == self._const(expr, seen[-1]))
                self.model = None
                self._append(Entry(CONC, key, list(seen), [], frames, expr,
                                   (limit, raw)))
            else:
                cval = self._value_of(self._get_model(), expr)
                pend = self._more(expr, [cval], limit, exact)
                self._push(expr == self._const(expr, cval))
                self._append(Entry(CONC, key, [cval], pend, 1, expr,
                                   (limit, raw)))
            ent = self.trail[-1]
        return self._const(expr, ent.outcome[-1])

    def _more(self, expr, seen, limit, exact):
        """pending list for a concretisation after the values in seen"""
        res, _ = self._check(*[expr != self._const(expr, v) for v in seen])
        if res == z3.unsat:
            return []
        if len(seen) >= limit:
            self.stats['truncated'] += 1
            return []
        return [('more', exact)]

    def _value_of(self, model, expr):
        """A feasible rational value of an expression"""
        v = model.eval(expr, model_completion=True)
        if z3.is_algebraic_value(v):
            near = v.approx(10)
            res, _ = self._check(expr == near)
            if res != z3.sat:
                raise Unsupported('cannot concretise %s' % v)
            self.model = None
            v = near
        return self._unconst(v)

    @staticmethod
    def _unconst(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return (v.numerator_as_long(), v.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Unsupported('cannot concretise %s' % v)

    @staticmethod
    def _const(expr, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, (tuple, list)):
            return z3.Q(v[0], v[1])
        if z3.is_real(expr):
            return z3.RealVal(v)
        return z3.IntVal(v)

    def assume(self, expr):
        """Restrict the rest of this path"""
        if expr is True:
            return
        if expr is False:
            self.stats['infeasible'] += 1
            self.die(PathEnd())
        raw = expr
        expr = self.simp(raw)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            self.stats['infeasible'] += 1
            self.die(PathEnd())
        key = raw.get_id()
        ent = self._replayed(ASSUME, key)
        if ent is not None:
            if not ent.outcome:
                self.die(PathEnd())
            return
        self._push(expr)
        if self.model is not None and not z3.is_true(
                self.model.eval(expr, model_completion=True)):
            self.model = None
        self._append(Entry(ASSUME, key, True, [], 1, expr, raw))
        if self.fpos < len(self.forced):
            return
        try:
            self._get_model()
        except PathEnd:
            self.trail[-1].outcome = False
            self.stats['infeasible'] += 1
            raise

    def check(self, expr, label, known=()):
        """Assert expr on this path for every value satisfying it.

        known: sequence of (finding id, z3 Bool or bool region)."""
        self.labels[label] = self.labels.get(label, 0) + 1
        if expr is True:
            self.stats['checks'] += 1
            return
        if expr is False:
            expr = z3.BoolVal(False)
        raw = expr
        expr = self.simp(raw)
        if z3.is_true(expr):
            self.stats['checks'] += 1
            return
        key = (label, raw.get_id())
        ent = self._replayed(CHECK, key)
        if ent is not None:
            if ent.outcome is False:
                self.die(PathEnd())
            return
        in_prefix = self.fpos < len(self.forced)
        self.stats['checks'] += 1
        if not in_prefix:
            self.stats['check_queries'] += 1
            regions = []
            for kid, region in known:
                region = z3.BoolVal(region) if isinstance(region, bool) \
                    else region
                regions.append((kid, region))
            outside = [z3.Not(r) for _, r in regions]
            res, model = self._check(z3.Not(expr), *outside)
            if res == z3.sat:
                self._violation(label, model, None)
            elif res == z3.unknown:
                self.notes['unknown check: ' + label] = 1
                self.stats['unknown_checks'] = self.stats.get(
                    'unknown_checks', 0) + 1
            for kid, region in regions:
                res, model = self._check(z3.Not(expr), region)
                if res == z3.sat:
                    self._violation(label, model, kid)
        self._push(expr)
        self.model = None if self.model is None or not z3.is_true(
            self.model.eval(expr, model_completion=True)) else self.model
        self._append(Entry(CHECK, key, True, [], 1, expr, raw))
        if not in_prefix:
            try:
                self._get_model()
            except PathEnd:
                self.trail[-1].outcome = False
                raise

    def fail(self, label, detail=''):
        """Unconditional failure on this path"""
        model = self._get_model()
        self._violation(label, model, None, detail)

    def _violation(self, label, model, known, detail=''):
        self.violations.append(dict(
            label=label, known=known, detail=detail,
            rounded='rounded' in self.path_flags,
            inputs=self.input_values(model)))

    # -- inputs --------------------------------------------------------------
    def register(self, name, decode):
        """Register a named input; decode(model) gives its concrete value"""
        self.inputs.append((name, decode))

    def input_values(self, model):
        return {name: decode(model) for name, decode in self.inputs}

    # -- exploration -----------------------------------------------------------
    def _backtrack(self):
        """Move to the next open alternative; False when there is none"""
        while self.trail:
            ent = self.trail[-1]
            if ent.npush:
                self.solver.pop(ent.npush)
                ent.npush = 0
            if not ent.pending:
                self.trail.pop()
                continue
            nxt = ent.pending.pop(0)
            if ent.kind == BRANCH:
                ent.outcome = nxt
                self._push(ent.expr if nxt else z3.Not(ent.expr))
                ent.npush = 1
            elif ent.kind == CHOICE:
                ent.outcome = nxt
                self._push(ent.expr == nxt)
                ent.npush = 1
            else:
                exact = nxt[1]
                for v in ent.outcome:
                    self._push(ent.expr != self._const(ent.expr, v))
                ent.npush = len(ent.outcome)
                self.model = None
                try:
                    val = self._value_of(self._get_model(), ent.expr)
                except PathEnd:
                    continue
                except Unsupported as err:
                    self.stats['unsupported'] += 1
                    self.notes['unsupported: %s' % err] = 1
                    continue
                ent.outcome = ent.outcome + [val]
                ent.pending = self._more(ent.expr, ent.outcome, ent.extra[0],
                                         exact)
                self._push(ent.expr == self._const(ent.expr, val))
                ent.npush += 1
            self.model = None
            return True
        return False

    def export(self):
        """Hand the shallowest open alternatives to other workers

        A prefix is the list of outcomes of the decision entries."""
        for i, ent in enumerate(self.trail):
            if not ent.pending or ent.kind == CONC:
                continue
            head = [e.outcome for e in self.trail[:i]
                    if e.kind in (BRANCH, CHOICE, CONC)]
            alts, ent.pending = ent.pending, []
            return [head + [alt] for alt in alts]
        return []

    def explore(self, run, forced=(), between=None, on_path=None):
        """Run all paths below the forced prefix. -> True when exhausted

        between() is called after every path and may stop the exploration
        by returning False"""
        self.forced = list(forced)
        self._fresh_solver()
        self.trail = []
        self.model = None
        while True:
            self.pos = 0
            self.fpos = 0 if not self.trail else len(self.forced)
            self.inputs = []
            self.observed = []
            self.path_flags = set()
            self.path_cache = {}
            self.fresh = 0
            self.nround = 0
            self.dead = False
            if len(self._memo) > 400000:
                self._memo.clear()
            status = 'done'
            try:
                run(self)
            except PathEnd:
                status = 'cut'
            except PathTimeout:
                status = 'timeout'
                self.stats['timeouts'] = self.stats.get('timeouts', 0) + 1
            except Unsupported as err:
                status = 'unsupported'
                self.stats['unsupported'] += 1
                key = 'unsupported: %s' % err
                self.notes[key] = self.notes.get(key, 0) + 1
            except Nondeterminism as err:
                status = 'nondet'
                self.stats['nondet'] += 1
                self.notes['nondet: %s' % err] = 1
                return False
            if status == 'done':
                self.stats['paths'] += 1
                if on_path is not None:
                    on_path(self)
            if not self._backtrack():
                return True
            if between is not None and not between(self):
                return False
