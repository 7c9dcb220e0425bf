"""
Bounded symbolic path explorer shared by all symbolic execution engines.

A harness is re-executed once per path.  Every data dependent decision goes through Explorer.branch(), which asks
the SMT solver which sides are feasible under the current path condition.  Decisions are kept in a trace (classical
depth first search with solver push/pop), so that after the exploration every feasible path within the bounds has
been executed exactly once.  Assertions (Explorer.check) are discharged by asking the solver for a counterexample
over all values of the symbolic inputs on the path.
"""

import time
import z3

from . import terms as T


class EngineSignal(BaseException):
    """Base of all control signals. BaseException so that code under test cannot swallow them."""


class PathInfeasible(EngineSignal):
    """Path condition became unsatisfiable (assume)."""


class PathCut(EngineSignal):
    """Path left the stated bounds (loop bound, size bound); counted and reported, never silent."""


class PathStop(EngineSignal):
    """Path ended because a violation has been recorded on it."""


class Unsupported(EngineSignal):
    """Real code performed an operation the engine cannot encode."""


class Nondeterminism(EngineSignal):
    """Re-execution diverged from the recorded trace: the engine itself is broken."""


class BudgetExceeded(EngineSignal):
    """Time or path budget exhausted."""


class Violation:
    def __init__(self, label, inputs, detail=""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


class _Entry:
    __slots__ = ("kind", "cond", "value", "has_alt", "pushed")

    def __init__(self, kind, cond, value, has_alt, pushed):
        self.kind = kind
        self.cond = cond
        self.value = value
        self.has_alt = has_alt
        self.pushed = pushed


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.branches = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.cuts = {}
        self.unknown = 0
        self.infeasible = 0
        self.unsupported = {}
        self.reached = set()
        self.concretised = {}
        self.exhausted = True

    def merge(self, other):
        for key in ("paths", "queries", "solver_time", "branches", "forks", "obligations", "discharged", "trivial",
                    "unknown", "infeasible"):
            setattr(self, key, getattr(self, key) + getattr(other, key))
        for name in ("cuts", "unsupported", "concretised"):
            mine = getattr(self, name)
            for key, val in getattr(other, name).items():
                mine[key] = mine.get(key, 0) + val
        self.reached |= other.reached
        self.exhausted = self.exhausted and other.exhausted


class Explorer:
    """Depth first path explorer with an incremental SMT solver."""

    current = None

    def __init__(self, query_timeout_ms=20000, max_paths=100000, deadline=None, logic="QF_BV"):
        self.logic = logic
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.violations = []
        self.inputs = {}
        self._new_solver()
        self.trace = []
        self.pos = 0
        self._model = None
        self.on_path_end = None
        self.path_state = {}
        self.decided = {}

    def _new_solver(self):
        self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)

    # ------------------------------------------------------------------ inputs
    def fresh_bv(self, name, width):
        var = T.memo(("v", name, width), lambda: z3.BitVec(name, width))
        if name in self.inputs and T.size(self.inputs[name]) != width:
            raise Nondeterminism(f"input {name} redeclared")
        self.inputs[name] = var
        return var

    # ------------------------------------------------------------------ solver
    def _check(self, *assumptions):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise BudgetExceeded("deadline")
        start = time.monotonic()
        self.stats.queries += 1
        result = self.solver.check(*assumptions)
        if result == z3.unknown:
            # second opinion with a fresh one-shot solver
            fresh = z3.Solver()
            fresh.set("timeout", self.query_timeout_ms)
            fresh.add(self.solver.assertions())
            fresh.add(*assumptions)
            result = fresh.check()
            if result == z3.sat:
                self._last_model = fresh.model()
        elif result == z3.sat:
            self._last_model = self.solver.model()
        self.stats.solver_time += time.monotonic() - start
        return result

    def _sat(self, cond):
        """Is pc and cond satisfiable? Returns z3.sat/unsat/unknown; uses the cached model when it decides."""
        if self._model is not None:
            val = self._model.eval(cond, model_completion=True)
            if z3.is_true(val):
                return z3.sat
        result = self._check(cond)
        if result == z3.sat:
            self._model = self._last_model
        return result

    def model(self):
        if self._model is None:
            result = self._check()
            if result != z3.sat:
                return None
            self._model = self._last_model
        return self._model

    def _push_cond(self, cond):
        self.solver.push()
        self.solver.add(cond)
        if self._model is not None:
            if not z3.is_true(self._model.eval(cond, model_completion=True)):
                self._model = None

    # ------------------------------------------------------------------ decisions
    def branch(self, cond):
        """Decides a condition, forking the path when both sides are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = T.simplify(cond)
        if cond is True or cond is False:
            return cond
        known = self.decided.get(T.tid(cond))
        if known is not None:
            return known[1]
        if self.pos < len(self.trace):
            entry = self.trace[self.pos]
            if entry.kind != "b" or T.tid(entry.cond) != T.tid(cond):
                raise Nondeterminism(f"branch #{self.pos}: {entry.kind} {entry.cond} vs {cond}")
            self.pos += 1
            self._learn(cond, entry.value)
            return entry.value
        self.stats.branches += 1
        neg = z3.Not(cond)
        model = self._model
        if model is None:
            result = self._check(cond)
            if result == z3.unsat:
                # pc is satisfiable by invariant, so the other side is
                self._append(_Entry("b", cond, False, False, False))
                return False
            if result == z3.unknown:
                self.stats.unknown += 1
            else:
                model = self._last_model
            first = True
        else:
            first = z3.is_true(model.eval(cond, model_completion=True))
        result = self._check(neg if first else cond)
        self._model = model
        if result == z3.unsat:
            self._append(_Entry("b", cond, first, False, False))
            return first
        if result == z3.unknown:
            self.stats.unknown += 1
        self.stats.forks += 1
        self._push_cond(cond if first else neg)
        self._append(_Entry("b", cond, first, True, True))
        return first

    def _append(self, entry):
        self.trace.append(entry)
        self.pos += 1
        if entry.cond is not None:
            self._learn(entry.cond, entry.value)

    def _learn(self, cond, value):
        """Remembers a condition decided on this path (syntactic look-up before asking the solver)."""
        self.decided[T.tid(cond)] = (cond, value)
        neg = T.negation(cond)
        if neg is not True and neg is not False:
            self.decided[T.tid(neg)] = (neg, not value)

    def assume(self, cond):
        """Adds an assumption; raises PathInfeasible if it contradicts the path condition."""
        if isinstance(cond, bool):
            if not cond:
                raise PathInfeasible()
            return
        cond = T.simplify(cond)
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        known = self.decided.get(T.tid(cond))
        if known is not None:
            if known[1]:
                return
            raise PathInfeasible()
        if self.pos < len(self.trace):
            entry = self.trace[self.pos]
            if entry.kind != "a" or T.tid(entry.cond) != T.tid(cond):
                raise Nondeterminism(f"assume #{self.pos}: {entry.kind} {entry.cond} vs {cond}")
            self.pos += 1
            self._learn(cond, True)
            return
        result = self._sat(cond)
        if result == z3.unsat:
            raise PathInfeasible()
        if result == z3.unknown:
            self.stats.unknown += 1
        self._push_cond(cond)
        self._append(_Entry("a", cond, True, False, True))

    def memo(self, compute):
        """Value derived from the solver state; recorded so that re-execution sees the same value."""
        if self.pos < len(self.trace):
            entry = self.trace[self.pos]
            if entry.kind != "m":
                raise Nondeterminism(f"memo #{self.pos}: {entry.kind}")
            self.pos += 1
            return entry.value
        value = compute()
        self._append(_Entry("m", None, value, False, False))
        return value

    def entails(self, cond):
        """True if pc implies cond (no fork)."""
        if isinstance(cond, bool):
            return cond
        cond = T.simplify(cond)
        if cond is True or cond is False:
            return cond
        return self.memo(lambda: self._entails(cond))

    def _entails(self, cond):
        if self._model is not None and z3.is_false(self._model.eval(cond, model_completion=True)):
            return False
        saved = self._model
        result = self._check(z3.Not(cond))
        self._model = saved
        return result == z3.unsat

    def check(self, cond, label, detail=""):
        """Proof obligation: cond must hold for every input on this path."""
        if self.pos < len(self.trace):
            # already discharged when this prefix was first explored; nothing to do
            return
        self.stats.obligations += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
            cond_z3 = z3.BoolVal(False)
        else:
            cond_z3 = T.simplify(cond)
            if cond_z3 is False:
                cond_z3 = z3.BoolVal(False)
            if cond_z3 is True:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
        saved = self._model
        result = self._check(z3.Not(cond_z3))
        if result == z3.unsat:
            self.stats.discharged += 1
            self._model = saved
            return
        if result == z3.unknown:
            self.stats.unknown += 1
            self._model = saved
            return
        model = self._last_model
        self._model = saved
        self.violations.append(Violation(label, self.assignment(model), detail))
        raise PathStop()

    def assignment(self, model):
        out = {}
        for name, var in self.inputs.items():
            out[name] = model.eval(var, model_completion=True).as_long()
        return out

    def pick_value(self, term):
        """A feasible concrete value of a bit-vector term (stable on re-execution)."""
        def compute():
            model = self.model()
            if model is None:
                raise PathInfeasible()
            return model.eval(term, model_completion=True).as_long()
        return self.memo(compute)

    def concretise(self, term, limit=300, why="value"):
        """Forks over all feasible values of a bit-vector term; returns the unsigned value on this path."""
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_long()
        for _ in range(limit):
            value = self.pick_value(term)
            if self.branch(term == z3.BitVecVal(value, term.size())):
                return value
        raise PathCut(f"more than {limit} values for {why}")

    # ------------------------------------------------------------------ main loop
    def run(self, harness):
        """Explores all paths of harness(explorer)."""
        previous = Explorer.current
        Explorer.current = self
        try:
            while True:
                self.pos = 0
                self.path_state = {}
                self.decided = {}
                self.inputs = {}
                outcome = None
                try:
                    harness(self)
                    outcome = "done"
                except PathInfeasible:
                    self.stats.infeasible += 1
                    outcome = "infeasible"
                except PathCut as cut:
                    key = str(cut)
                    self.stats.cuts[key] = self.stats.cuts.get(key, 0) + 1
                    outcome = "cut"
                except PathStop:
                    outcome = "violation"
                except Unsupported as exc:
                    key = str(exc)
                    self.stats.unsupported[key] = self.stats.unsupported.get(key, 0) + 1
                    outcome = "unsupported"
                    if self.on_path_end is not None:
                        self.on_path_end(self, outcome)
                except BudgetExceeded:
                    self.stats.exhausted = False
                    return
                if self.pos < len(self.trace) and outcome == "done":
                    raise Nondeterminism("path ended before its recorded trace")
                self.stats.paths += 1
                if outcome == "done" and self.on_path_end is not None:
                    try:
                        self.on_path_end(self, outcome)
                    except BudgetExceeded:
                        self.stats.exhausted = False
                        return
                if len(self.violations) >= 3:
                    self.stats.exhausted = False
                    return
                if not self._backtrack():
                    return
                if self.stats.paths >= self.max_paths or (
                        self.deadline is not None and time.monotonic() > self.deadline):
                    self.stats.exhausted = False
                    return
        finally:
            Explorer.current = previous

    def _backtrack(self):
        self._model = None
        # entries beyond self.pos cannot exist except for aborted paths; drop nothing but alternatives
        while self.trace:
            entry = self.trace.pop()
            if entry.pushed:
                self.solver.pop()
            if entry.has_alt:
                cond = entry.cond
                value = not entry.value
                self.solver.push()
                self.solver.add(cond if value else z3.Not(cond))
                self.trace.append(_Entry("b", cond, value, False, True))
                return True
        return False
