"""Path exploration: decisions, solver state, checks.

One run of a harness follows one path.  Every branch on a symbolic condition consults the decision
prefix of the path; beyond the prefix it asks the solver which sides are feasible, follows one and
hands the other out as a new prefix.  The exploration is complete when no prefix is left.
"""
import time

import z3


class SymxSignal(BaseException):
    """Never caught by 'except Exception' in the code under test."""


class PathEnd(SymxSignal):
    """The path is infeasible or was cut by an assumption."""


class Unsupported(SymxSignal):
    """Code outside the supported subset: the check must not claim anything."""


class Inconclusive(SymxSignal):
    """The solver answered unknown."""


class ViolationFound(SymxSignal):
    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


class Stats:
    FIELDS = ('paths', 'cut', 'queries', 'sat', 'unsat', 'checks', 'discharged', 'trivial', 'decisions')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        return d


CURRENT = None  # the active Ctx


def ctx():
    if CURRENT is None:
        raise Unsupported("no active context")
    return CURRENT


class SymCtx:
    """Symbolic context of one path."""

    symbolic = True

    def __init__(self, prefix, solver, stats, options):
        self.prefix = list(prefix)
        self.trace = []
        self.siblings = []
        self.solver = solver
        self.stats = stats
        self.options = options
        self.inputs = {}  # name -> z3 expr, in creation order
        self.model = None
        self.fresh_counter = 0
        self.observed = []
        self.reached = set()
        self.functions = {}
        self.known_hits = {}
        self.input_paths = {}
        self.env = {}
        self.depth_limit = options.get('max_decisions', 4000)
        self.notes = []

    # -- solver ---------------------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            raise Inconclusive("solver: " + self.solver.reason_unknown())
        return r

    def entails(self, e):
        """Whether e holds for all values on this path."""
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        return self._check(z3.Not(e)) == z3.unsat

    def add(self, e):
        self.solver.add(e)

    def _ensure_model(self):
        if self.model is None:
            if self._check() == z3.unsat:
                raise PathEnd("infeasible")
            self.model = self.solver.model()
        return self.model

    def branch(self, cond):
        """cond: z3 BoolRef. Returns a Python bool and constrains the path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            rec = self.prefix[pos]
            if rec[0] != 'b':
                raise Unsupported(f"non-deterministic replay: expected {rec}, got branch {cond}")
            self.trace.append(rec)
            self.add(cond if rec[1] else z3.Not(cond))
            self.model = None
            return rec[1]
        if pos > self.depth_limit:
            raise Unsupported("decision limit reached: unbounded loop?")
        self.stats.decisions += 1
        m = self._ensure_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        if self._check(other) == z3.sat:
            self.siblings.append(tuple(self.trace) + (('b', not side),))
        self.trace.append(('b', side))
        self.add(cond if side else z3.Not(cond))
        return side

    def concretize(self, e, limit=400):
        """All feasible values of the integer term e are explored, one per path."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                rec = self.prefix[pos]
                if rec[0] not in ('v', 'n'):
                    raise Unsupported(f"non-deterministic replay: expected {rec}, got value of {e}")
                self.trace.append(rec)
                self.model = None
                if rec[0] == 'v':
                    self.add(e == rec[1])
                    return rec[1]
                self.add(e != rec[1])
                n += 1
                continue
            if n > limit:
                raise Unsupported(f"more than {limit} values for {str(e)[:200]}")
            self.stats.decisions += 1
            m = self._ensure_model()
            v = m.eval(e, model_completion=True).as_long()
            if self._check(e != v) == z3.sat:
                self.siblings.append(tuple(self.trace) + (('n', v),))
            self.trace.append(('v', v))
            self.add(e == v)
            return v

    # -- inputs ---------------------------------------------------------------------------------
    def _declare(self, name, lo, hi):
        if name in self.inputs:
            raise Unsupported(f"duplicate input {name}")
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        self.model = None
        return v

    def fresh(self, hint='t', lo=None, hi=None):
        self.fresh_counter += 1
        v = z3.Int(f'{hint}!{self.fresh_counter}')
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        self.model = None
        return v

    def assume(self, cond):
        from .values import as_bool_expr

        e = z3.simplify(as_bool_expr(cond))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd("assumption")
        self.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    # -- properties -----------------------------------------------------------------------------
    def check(self, cond, label):
        from .values import as_bool_expr

        self.stats.checks += 1
        e = z3.simplify(as_bool_expr(cond))
        if z3.is_true(e):
            self.stats.trivial += 1
            # The path itself must still be feasible, which every recorded decision was checked for.
            return
        neg = z3.Not(e)
        if self._check(neg) == z3.sat:
            raise ViolationFound(label, self._extract(self.solver.model()))
        self.stats.discharged += 1

    def check_known(self, cond, label, fid, region):
        """Like check, but a failure inside the region of a recorded finding is only noted."""
        from .values import as_bool_expr

        self.stats.checks += 1
        e = z3.simplify(as_bool_expr(cond))
        if z3.is_true(e):
            self.stats.trivial += 1
            return
        r = z3.simplify(as_bool_expr(region))
        neg = z3.Not(e)
        if self._check(neg, z3.Not(r)) == z3.sat:
            raise ViolationFound(label, self._extract(self.solver.model()))
        if fid not in self.known_hits and self._check(neg, r) == z3.sat:
            self.known_hits[fid] = {'label': label, 'model': self._extract(self.solver.model())}
        self.stats.discharged += 1
        self.assume(cond)

    def fail(self, label):
        self.stats.checks += 1
        if self._check() == z3.sat:
            raise ViolationFound(label, self._extract(self.solver.model()))
        raise PathEnd("infeasible")

    def feasible(self):
        return self._check() == z3.sat

    def current_model(self):
        self._ensure_model()
        return self._extract(self.model)

    def _extract(self, m):
        out = {}
        for name, e in self.inputs.items():
            out[name] = m.eval(e, model_completion=True).as_long()
        return out

    def observe(self, name, value):
        self.observed.append((name, value))

    def reach(self, name):
        """Vacuity guard: this point was reached on a feasible path."""
        self.reached.add(name)


def run_path(harness, prefix, solver, stats, options):
    """Returns (status, siblings, info)."""
    global CURRENT
    solver.push()
    c = SymCtx(prefix, solver, stats, options)
    from .api import SymApi

    CURRENT = c
    api = SymApi(c)
    status, info = 'ok', {}
    try:
        from . import values

        values.reset_path()
        harness(api)
        if c.model is None and c._check() == z3.unsat:
            raise PathEnd("infeasible")
        stats.paths += 1
    except PathEnd:
        status = 'cut'
        stats.cut += 1
    except ViolationFound as v:
        status, info = 'violation', {'label': v.label, 'model': v.model}
    except Inconclusive as e:
        status, info = 'inconclusive', {'error': str(e), 'prefix': c.trace}
    except Unsupported as e:
        import traceback

        status, info = 'unsupported', {'error': str(e), 'tb': traceback.format_exc(limit=-12)}
    except RecursionError as e:
        # The code under test recursed without end on a feasible path.
        try:
            status, info = 'violation', {'label': 'unbounded recursion', 'model': c._extract(c._ensure_model())}
        except SymxSignal:
            status, info = 'inconclusive', {'error': 'recursion'}
    except Exception as e:
        import traceback

        tb = traceback.format_exc(limit=-14)
        try:
            if c._check() == z3.sat:
                status = 'violation'
                info = {
                    'label': f'uncaught {type(e).__name__}: {_safe(e)}',
                    'model': c._extract(solver.model()),
                    'tb': tb,
                }
            else:
                status = 'cut'
        except Inconclusive as e2:
            status, info = 'inconclusive', {'error': str(e2)}
    finally:
        api.cleanup()
        if status in ('ok',) and options.get('validate'):
            try:
                info['model'] = c.current_model()
                m = c.model
                info['observed'] = [(n, api.evaluate(v, m)) for n, v in c.observed]
            except SymxSignal as e:
                info['observe_error'] = repr(e)
        CURRENT = None
        solver.pop()
    info['reached'] = sorted(c.reached)
    info['functions'] = c.functions
    info['known'] = c.known_hits
    info['notes'] = c.notes
    info['n_decisions'] = len(c.trace)
    return status, c.siblings, info


def _safe(e):
    try:
        return str(e)[:300]
    except BaseException as x:  # noqa
        return f'<{type(x).__name__}>'
