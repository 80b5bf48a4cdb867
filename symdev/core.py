"""Path-exploring symbolic execution core.

One `Explorer` re-executes a harness function once per feasible path.  Every
decision a path takes on a symbolic value goes through `Explorer.branch`, which
asks the SMT solver which sides are satisfiable together with the path
condition, and every property is discharged by asking the solver for a model of
`path condition and not property`.
"""
import sys
import time

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import z3  # noqa: E402


class Control(BaseException):
    """ engine control flow, must never be caught by code under test. """


class Infeasible(Control):
    """ the path condition became unsatisfiable (an assumption failed). """


class Unsupported(Control):
    """ the encoding doesn't cover an operation. """


class Exhausted(Control):
    """ a per path budget was exceeded. """


ACTIVE = None


def current():
    if ACTIVE is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return ACTIVE


_true = z3.BoolVal(True)
_false = z3.BoolVal(False)


def is_true(e):
    return e is True or (not isinstance(e, bool) and z3.is_true(e))


def is_false(e):
    return e is False or (not isinstance(e, bool) and z3.is_false(e))


def _pyval(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def _z3val(expr, v):
    if z3.is_bool(expr):
        return z3.BoolVal(v)
    if z3.is_real(expr):
        return z3.RealVal(v)
    return z3.IntVal(v)


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.unsupported = {}
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.asserts = 0
        self.asserts_trivial = 0
        self.branches = 0
        self.reached = {}
        self.functions = set()
        self.complete = True
        self.concretizations = 0


class Violation:
    def __init__(self, label, inputs, detail=""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Explorer:
    def __init__(self, *, max_paths=20000, time_limit=60, query_timeout_ms=20000,
                 max_branches=4000, max_violations=3):
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.max_branches = max_branches
        self.max_violations = max_violations
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", 1)
        self.stats = Stats()
        self.violations = []
        # tags of the pushed solver scopes
        self.levels = []
        self.worklist = [[]]

    # -- low level solver handling

    def _check(self, *assumptions):
        self.stats.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _add(self, expr):
        """ add expr to the path condition.

        Scopes belonging to the decisions shared with the previously explored
        path are kept, so they aren't asserted again.
        """
        self.lpos += 1
        if self.lpos <= self.keep:
            # this assertion already is on the solver stack
            return
        self.solver.push()
        self.solver.add(expr)
        self.levels.append(self.dpos)

    def eval_model(self, expr):
        """ evaluate under the last known model of the current path. """
        if self.model is None:
            if self._check() != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model.eval(expr, model_completion=True)

    # -- API used by proxies

    def branch(self, cond, aux=None):
        """ decide a symbolic condition, returns a python bool. """
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        memo = self.memo.get(cond.get_id())
        if memo is not None:
            return memo[1]
        d = self._branch(cond, aux)
        self.memo[cond.get_id()] = (cond, d)
        return d

    def _branch(self, cond, aux):
        self.stats.branches += 1
        i = self.dpos
        if i < len(self.prefix):
            forced, d, _ = self.prefix[i]
            self.dpos += 1
            self.decisions.append(self.prefix[i])
            if not forced:
                self._add(cond if d else z3.Not(cond))
                if self.model is not None:
                    v = self.model.eval(cond, model_completion=True)
                    if not (z3.is_true(v) if d else z3.is_false(v)):
                        self.model = None
            return d
        if i >= self.max_branches:
            raise Exhausted("more than %d decisions on a path" % self.max_branches)
        if time.monotonic() > self.deadline:
            raise Exhausted("time limit")
        neg = z3.Not(cond)
        can_true = can_false = None
        model_true = model_false = None
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible
            if r == z3.sat:
                self.model = self.solver.model()
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                can_true = True
                model_true = self.model
            elif z3.is_false(v):
                can_false = True
                model_false = self.model
        if can_true is None:
            r = self._check(cond)
            can_true = r != z3.unsat
            if r == z3.sat:
                model_true = self.solver.model()
        if can_false is None:
            r = self._check(neg)
            can_false = r != z3.unsat
            if r == z3.sat:
                model_false = self.solver.model()
        if not can_true and not can_false:
            raise Infeasible
        self.dpos += 1
        if can_true and can_false:
            self.worklist.append([*self.decisions, (False, False, aux)])
            self.decisions.append((False, True, aux))
            self._add(cond)
            self.model = model_true
            return True
        d = bool(can_true)
        self.decisions.append((True, d, aux))
        self.model = model_true if d else model_false
        return d

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible
            return
        if z3.is_true(cond):
            return
        self._add(cond)
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None
        if self.model is None and self.lpos > self.keep:
            if self.dpos >= len(self.prefix):
                r = self._check()
                if r == z3.unsat:
                    raise Infeasible
                if r == z3.sat:
                    self.model = self.solver.model()

    def concretize(self, expr):
        """ fix an expression to a concrete value by case splitting. """
        if isinstance(expr, (int, bool)):
            return expr
        e = z3.simplify(expr)
        v = _pyval(e)
        if v is not None:
            return v
        self.stats.concretizations += 1
        while True:
            i = self.dpos
            if i < len(self.prefix):
                # the value to try has to be the same on re-execution
                v = self.prefix[i][2]
            else:
                m = self.eval_model(expr)
                if m is None:
                    raise Infeasible
                v = _pyval(m)
                if v is None:
                    raise Unsupported("can't concretize %s" % expr)
            # always recorded, even if it is known already
            cond = expr == _z3val(expr, v)
            d = self._branch(cond, v)
            self.memo[cond.get_id()] = (cond, d)
            if d:
                return v

    def check(self, cond, label, detail=None):
        """ discharge a property at this point of the path. """
        self.stats.asserts += 1
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1
        if self.dpos < len(self.prefix):
            # a path with a longer prefix repeats checks which were
            # discharged already on the path it was forked from
            if isinstance(cond, bool):
                if not cond:
                    raise Infeasible
                return
            self.assume(cond)
            return
        if isinstance(cond, bool):
            self.stats.asserts_trivial += 1
            if cond:
                return
            r = self._check()
        else:
            r = self._check(z3.Not(cond))
        if r == z3.sat:
            model = self.solver.model()
            self.violations.append(Violation(
                label, self.inputs_from_model(model)))
            if len(self.violations) >= self.max_violations:
                self.stop = True
        elif r == z3.unknown:
            self.stats.unsupported["solver unknown in check"] = \
                self.stats.unsupported.get("solver unknown in check", 0) + 1
            self.stats.complete = False
        if isinstance(cond, bool):
            raise Infeasible
        self.assume(cond)

    # -- inputs

    def register_input(self, name, getter):
        if name in self.inputs:
            raise Unsupported("duplicate input %s" % name)
        self.inputs[name] = getter

    def inputs_from_model(self, model):
        def ev(e):
            if isinstance(e, (int, bool)):
                return e
            v = model.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_rational_value(v):
                f = v.as_fraction()
                return int(f) if f.denominator == 1 else float(f)
            raise Unsupported("can't evaluate %s" % e)
        return {k: g(ev) for k, g in self.inputs.items()}

    def fresh(self, name, sort="int"):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        if n:
            name = "%s#%d" % (name, n)
        if sort == "int":
            return z3.Int(name)
        if sort == "real":
            return z3.Real(name)
        return z3.Bool(name)

    # -- exploration

    def run(self, fn, on_path_end=None):
        global ACTIVE
        self.deadline = time.monotonic() + self.time_limit
        self.stop = False
        last = []
        while self.worklist and not self.stop:
            if self.stats.paths >= self.max_paths or time.monotonic() > self.deadline:
                self.stats.complete = False
                break
            item = self.worklist.pop()
            self.prefix = item
            # keep solver levels of the common prefix
            common = 0
            for a, b in zip(last, item):
                if a != b:
                    break
                common += 1
            # a level is tagged with the number of decisions made before it
            # was complete, so tags up to the common length are shared
            n = 0
            for x in self.levels:
                if x > common:
                    break
                n += 1
            for _ in range(len(self.levels) - n):
                self.solver.pop()
            del self.levels[n:]
            self.keep = n
            self.lpos = 0
            self.dpos = 0
            self.decisions = []
            self.inputs = {}
            self.observations = []
            self.counters = {}
            self.model = None
            self.memo = {}
            self.cleanups = []
            ACTIVE = self
            outcome = "ok"
            err = None
            try:
                fn(self)
            except Infeasible:
                outcome = "infeasible"
            except (Unsupported, Exhausted) as e:
                outcome = "unsupported"
                err = e
            except RecursionError as e:
                outcome = "unsupported"
                err = e
            except Exception as e:
                outcome = "exception"
                err = e
            finally:
                for c in reversed(self.cleanups):
                    c()
            self.stats.paths += 1
            if outcome == "infeasible":
                self.stats.infeasible += 1
            elif outcome == "unsupported":
                key = "%s: %s" % (type(err).__name__, str(err)[:200])
                self.stats.unsupported[key] = self.stats.unsupported.get(key, 0) + 1
                self.stats.complete = False
            if on_path_end is not None:
                on_path_end(self, outcome, err)
            ACTIVE = None
            last = self.decisions
        if self.worklist and not self.violations:
            self.stats.complete = False
        return self


