"""Path explorer: depth-first re-execution of a harness with an incremental z3 solver.

Every branch of Python code on a symbolic condition goes through ``Explorer.fork``; both sides are
kept only if z3 finds them feasible under the path condition.  Obligations collected on a path are
decided by z3 for all values of the symbolic inputs satisfying the path condition.
"""

from __future__ import annotations

import time

from . import terms as T
from .terms import z3


class PathInfeasible(BaseException):
    """steers the explorer: the current path cannot be completed"""


class Budget(BaseException):
    """the path/time budget of an instance is used up"""


class Unsupported(BaseException):
    """the code did something the encoder has no model for (path is left undecided)"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.undecided = []
        self.infeasible = 0
        self.reached = 0

    def as_dict(self):
        return dict(self.__dict__)


class Explorer:
    def __init__(self, *, timeout_ms=20000, max_paths=100000, deadline=None):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.trace = []  # list of [bit, flippable]
        self.solver = None
        self._new_solver()

    def _new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.levels = 0

    # ------------------------------------------------------------------ run
    def explore(self, body):
        """run ``body(self)`` on every feasible path; yields after each completed path"""
        global CURRENT
        self.trace = []
        self._new_solver()
        self.level_asserts = 0
        prev, CURRENT = CURRENT, self
        T.FORK = self.fork
        T.AXIOM = self.axiom
        try:
            while True:
                self.pos = 0
                self.fresh_n = 0
                self.inputs = {}
                self.obligs = []
                self.axioms_done = set()
                self.asserts_seen = 0
                self.model_cache = None
                self.reported = False
                # assertions made before decision k live at solver level k
                self.replaying = len(self.trace)
                try:
                    body(self)
                    self.stats.paths += 1
                    yield "done"
                except PathInfeasible:
                    self.stats.infeasible += 1
                except Unsupported as e:
                    self.stats.paths += 1
                    self.stats.undecided.append(f"unsupported: {e}")
                    yield "unsupported"
                if self.stats.paths >= self.max_paths or (
                    self.deadline is not None and time.monotonic() > self.deadline
                ):
                    if any(t[1] for t in self.trace):
                        self.stats.undecided.append(
                            f"budget: stopped after {self.stats.paths} paths"
                        )
                    return
                # backtrack
                while self.trace and not self.trace[-1][1]:
                    self.trace.pop()
                if not self.trace:
                    return
                n = len(self.trace)
                self.trace[-1] = [not self.trace[-1][0], False, *self.trace[-1][2:]]
                # solver levels: decision i (0-based) pushes level i+1
                while self.levels > n - 1:
                    self.solver.pop()
                    self.levels -= 1
        finally:
            CURRENT = prev
            T.reset()

    # ------------------------------------------------------------ assertions
    # During replay of the prefix (pos < number of levels already in the solver) assertions are
    # already present in the solver.
    def _in_prefix(self):
        return self.pos < self.levels

    def add(self, c):
        """assume a raw Bool term"""
        if c is True:
            return
        if c is False:
            raise PathInfeasible
        if self.pos < self.levels:
            return
        self.solver.add(c)
        self.model_cache = None

    def assume(self, c):
        self.add(c)

    def check(self, *extra):
        t0 = time.monotonic()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.monotonic() - t0
        self.stats.queries += 1
        return r

    def fork(self, c):
        """decide a raw Bool term on this path"""
        if c is True or c is False:
            return c
        if self.pos < len(self.trace):
            bit = self.trace[self.pos][0]
            if self.pos >= self.levels:
                # the freshly flipped decision (feasible: checked when it was created)
                self.solver.push()
                self.levels += 1
                self.solver.add(c if bit else z3.Not(c))
                self.model_cache = None
            self.pos += 1
            return bit
        self.stats.forks += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.stats.undecided.append("budget: time")
            for t in self.trace:
                t[1] = False
            raise PathInfeasible
        # which sides are feasible?
        can_t = can_f = None
        m = self.model_cache
        if m is not None:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if can_t is None:
            r = self.check(c)
            can_t = r != z3.unsat
            if r == z3.sat:
                mt = self.solver.model()
                if can_f is None:
                    self.model_cache = mt
        if can_f is None:
            nc = z3.Not(c)
            r = self.check(nc)
            can_f = r != z3.unsat
            if r == z3.sat and not can_t:
                self.model_cache = self.solver.model()
        if not can_t and not can_f:
            raise PathInfeasible
        if can_t and can_f:
            bit, flip = True, True
        else:
            bit, flip = can_t, False
        self.trace.append([bit, flip])
        keep = self.model_cache
        self.solver.push()
        self.levels += 1
        self.solver.add(c if bit else z3.Not(c))
        self.pos += 1
        self.model_cache = None
        if keep is not None:
            v = keep.eval(c, model_completion=True)
            if (z3.is_true(v) and bit) or (z3.is_false(v) and not bit):
                self.model_cache = keep
        return bit

    def feasible(self, c=True):
        if c is False:
            return False
        if c is True:
            return True
        return self.check(c) != z3.unsat

    # --------------------------------------------------------------- values
    def fresh(self, prefix, sort):
        self.fresh_n += 1
        name = f"{prefix}!{self.fresh_n}"
        return z3.Const(name, sort)

    def concretize(self, x, limit=64):
        """fork over the feasible values of a raw term"""
        if T.is_const(x):
            return x
        if T.kind_of(x) == "b":
            return self.fork(x)
        s = T.sup(x)
        if s:
            vals = sorted(s)
            for v in vals[:-1]:
                if self.fork(T.eq(x, v)):
                    return v
            return vals[-1]
        for _ in range(limit):
            if self.pos < len(self.trace):
                # replay: recover the candidate from the recorded trace
                rec = self.trace[self.pos]
                v = rec[2] if len(rec) > 2 else None
                if v is None:
                    raise Unsupported("concretize replay")
                if self.fork(T.eq(x, v)):
                    return v
                continue
            r = self.check()
            if r == z3.unsat:
                raise PathInfeasible
            if r != z3.sat:
                raise Unsupported("concretize: unknown")
            mv = self.solver.model().eval(x, model_completion=True)
            v = model_value(mv)
            if v is None:
                raise Unsupported("concretize: irrational")
            k = self.pos
            bit = self.fork(T.eq(x, v))
            if k < len(self.trace) and len(self.trace[k]) == 2:
                self.trace[k].append(v)
            if bit:
                return v
        raise Unsupported("concretize: too many values")

    def axiom(self, name, x, r):
        key = (name, x.get_id() if T.is_sym(x) else x)
        if key in self.axioms_done:
            return
        self.axioms_done.add(key)
        if name == "sqrt":
            self.add(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif name == "cbrt":
            self.add(r * r * r == x)


def model_value(mv):
    if z3.is_true(mv):
        return True
    if z3.is_false(mv):
        return False
    if z3.is_int_value(mv):
        return mv.as_long()
    if z3.is_rational_value(mv):
        return float(mv.as_fraction())
    if z3.is_algebraic_value(mv):
        return float(mv.approx(20).as_fraction())
    return None


CURRENT = None


def cur():
    if CURRENT is None:
        raise RuntimeError("symbolic value used outside of an exploration")
    return CURRENT


class Concrete:
    """stands in for an Explorer when every value is concrete (validation of the encoding)"""

    def fork(self, c):
        if c is True or c is False:
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported("symbolic condition in concrete mode")

    def concretize(self, x, limit=64):
        if T.is_const(x):
            return x
        v = model_value(z3.simplify(x))
        if v is None:
            raise Unsupported("symbolic value in concrete mode")
        return v

    def fresh(self, prefix, sort):
        return True

    def add(self, c):
        if not self.fork(c):
            raise PathInfeasible

    assume = add

    def feasible(self, c=True):
        return self.fork(c)

    def axiom(self, name, x, r):
        pass


def concrete_mode():
    global CURRENT
    CURRENT = Concrete()
    T.FORK = CURRENT.fork
    T.AXIOM = CURRENT.axiom
