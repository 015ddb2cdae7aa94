"""Path-forking symbolic execution engine.

The code under test runs natively in CPython on proxy values (see values.py) whose payloads are z3
terms.  Whenever Python asks for the truth of a symbolic condition, `Engine.fork` asks the solver
which sides are feasible, takes one and queues the other; each queued side is explored by
re-executing the harness from scratch along the recorded decision prefix.  `Engine.check` discharges
an assertion: the solver either shows it holds for every value on the path or returns a model.
"""

from __future__ import annotations

import time

import z3


class PathEnd(BaseException):
    """Base of the signals that end a path. BaseException: code under test must not swallow them."""

    def __init__(self, *args):
        super().__init__(*args)
        if ENGINE is not None:
            ENGINE.signal = self  # C extensions may wrap it in an exception of their own


class Infeasible(PathEnd):
    """An assumption is unsatisfiable on this path."""


class Unsupported(PathEnd):
    """The encoding cannot follow the code any further on this path (path is undecided)."""


class Violated(PathEnd):
    """An assertion has a counterexample on this path."""


class NonDeterminism(PathEnd):
    """Re-execution along a decision prefix diverged."""


class Budget(PathEnd):
    """Path/time budget exhausted."""


ENGINE: "Engine | None" = None


def eng() -> "Engine":
    if ENGINE is None:
        raise RuntimeError("no symbolic engine is active")
    return ENGINE


def active() -> bool:
    return ENGINE is not None


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.model_hits = 0
        self.checks = 0
        self.checks_proved = 0
        self.checks_trivial = 0


class PathResult:
    __slots__ = ("status", "message", "inputs", "events", "checks", "decisions", "known")

    def __init__(self, status, message="", inputs=None, events=(), checks=0, decisions=0, known=()):
        self.status = status  # ok | violation | undecided | infeasible | exception | known
        self.message = message
        self.inputs = inputs
        self.events = list(events)
        self.checks = checks
        self.decisions = decisions
        self.known = list(known)


class Engine:
    def __init__(self, *, max_paths=100000, deadline=None, query_timeout_ms=20000):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.query_timeout_ms = query_timeout_ms
        self.functions: dict[str, int] = {}
        self.worklist: list[list] = []
        self.exhausted = True
        self.simplified: dict = {}

    # ---- per-path state -------------------------------------------------------------------
    def _reset(self, prefix):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.prefix = prefix
        self.decisions = []
        self.idx = 0
        self.model = None  # a model of the current path condition, if known
        self.inputs: dict = {}
        self.counter = 0
        self.registry: list = []
        self.events: list = []
        self.n_checks = 0
        self.known: list = []
        self.signal = None
        self.cache: dict = {}
        self.pc = []
        self.decided: dict = {}  # cond ast id -> (value, cond): decisions already taken on the path

    def fresh_id(self) -> int:
        self.counter += 1
        return self.counter

    def fresh_int(self, hint="v"):
        return z3.Int(f"{hint}!{self.fresh_id()}")

    # ---- solver ---------------------------------------------------------------------------
    def _query(self, *assumptions):
        t = time.monotonic()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.monotonic() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        raise Unsupported(f"solver answered unknown: {self.solver.reason_unknown()}")

    def _holds_in_model(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _add(self, cond):
        self.solver.add(cond)
        self.pc.append(cond)

    def assume(self, cond):
        """Restrict the path to `cond` (a z3 Bool)."""
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self._holds_in_model(cond) is not True:
            self.model = None
            self._add(cond)
            if self.idx >= len(self.prefix) and not self._query():
                raise Infeasible()
            return
        self._add(cond)

    def add_fact(self, cond):
        """Add a definitional constraint over fresh variables (cannot make the path infeasible)."""
        self._add(cond)
        if self._holds_in_model(cond) is not True:
            self.model = None

    def fork(self, cond) -> bool:
        """Decide a z3 Bool, exploring both sides when both are feasible."""
        if not z3.is_true(cond) and not z3.is_false(cond):
            # Kept alive (and hash-consed), so that terms and what they simplify to are the same on
            # every path: z3 orders arguments by identity.
            kept = self.simplified.get(cond.get_id())
            if kept is None:
                kept = self.simplified[cond.get_id()] = (cond, z3.simplify(cond))
            cond = kept[1]
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[0]
        r = self._fork(cond)
        self.decided[cond.get_id()] = (r, cond)
        return r

    def _fork(self, cond) -> bool:
        self.stats.forks += 1
        if self.idx < len(self.prefix):
            val, h = self.prefix[self.idx]
            if h != cond.hash():
                raise NonDeterminism(f"decision {self.idx} diverged at {cond}")
            self.idx += 1
            self.decisions.append((val, h))
            c = cond if val else z3.Not(cond)
            if self._holds_in_model(c) is not True:
                self.model = None
            self._add(c)
            return val
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("deadline")
        h = cond.hash()
        hint = self._holds_in_model(cond)
        if hint is None:
            # Establish one side.
            if self._query(cond):
                hint = True
            else:
                hint = False
                self.model = None
                self._record(False, h, cond, other=False)
                return False
        else:
            self.stats.model_hits += 1
        saved = self.model
        other_feasible = self._query(z3.Not(cond) if hint else cond)
        self.model = saved
        self._record(hint, h, cond, other=other_feasible)
        return hint

    def _record(self, val, h, cond, *, other):
        if other:
            self.worklist.append([*self.decisions, (not val, h)])
        self.decisions.append((val, h))
        self.idx += 1
        self._add(cond if val else z3.Not(cond))

    # ---- assertions -----------------------------------------------------------------------
    def check(self, cond, message, known=()):
        """Assert `cond` (z3 Bool) for every value on this path.

        `known` is a list of (finding id, z3 Bool): counterexamples inside one of these predicates
        are recorded as the listed known finding; any other counterexample is a violation.
        """
        self.n_checks += 1
        if self.idx < len(self.prefix):
            # The path this one was forked from already discharged this assertion at this point,
            # under the same decisions.
            if known:
                self.model = None
                self._add(cond)
            return
        self.stats.checks += 1
        if not z3.is_true(cond) and not z3.is_false(cond):
            cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.checks_proved += 1
            self.stats.checks_trivial += 1
            return
        neg = z3.Not(cond)
        outside = [z3.Not(p) for _, p in known]
        saved = self.model
        if self._query(neg, *outside):
            self.events.append(("violation", message))
            raise Violated(message, self.witness())
        for kid, p in known:
            if self._query(neg, p):
                self.known.append((kid, message, self.witness()))
        self.stats.checks_proved += 1
        self.model = saved
        # Continue under the assertion, so later assertions are judged independently.
        if known:
            self.model = None
            self._add(cond)
            if not self._query():
                raise Infeasible()

    def witness(self):
        """Concrete harness inputs for a model of the path condition (or the last query's model)."""
        if self.model is None:
            if not self._query():
                raise Infeasible()
        m = self.model
        return {name: conc(m) for name, conc in self.inputs.items()}

    # ---- exploration ----------------------------------------------------------------------
    def explore(self, fn, *, on_path, before_path=None):
        """Run `fn()` over all feasible paths. `on_path(PathResult)` gets each outcome."""
        global ENGINE
        self.worklist = [[]]
        n = 0
        while self.worklist:
            if n >= self.max_paths or (
                self.deadline is not None and time.monotonic() > self.deadline
            ):
                self.exhausted = False
                break
            prefix = self.worklist.pop()
            n += 1
            self._reset(prefix)
            if before_path is not None:
                before_path()
            ENGINE = self
            res = None
            try:
                try:
                    fn()
                except Exception:
                    if self.signal is not None:
                        raise self.signal from None
                    raise
                res = PathResult("ok", inputs=self._safe_witness())
            except Violated as e:
                res = PathResult("violation", e.args[0], inputs=e.args[1])
            except Infeasible:
                res = PathResult("infeasible")
            except Unsupported as e:
                res = PathResult("undecided", f"unsupported: {e}", inputs=self._safe_witness())
            except Budget:
                self.exhausted = False
                break
            except NonDeterminism as e:
                res = PathResult("undecided", f"nondeterminism: {e}")
            except RecursionError as e:
                res = PathResult("undecided", f"recursion: {e}", inputs=self._safe_witness())
            except Exception as e:  # the code under test raised where the harness does not allow it
                import traceback

                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{f.filename}:{f.lineno}:{f.name}" for f in tb[-4:])
                res = PathResult(
                    "exception",
                    f"{type(e).__name__}: {_safe_str(e)} @ {where}",
                    inputs=self._safe_witness(),
                )
            finally:
                ENGINE = None
            res.checks = self.n_checks
            res.decisions = len(self.decisions)
            res.events = list(self.events)
            res.known = list(self.known)
            on_path(res)
        return n

    def _safe_witness(self):
        try:
            return self.witness()
        except PathEnd:
            return None


def _safe_str(e):
    try:
        return str.__str__(str(e))[:600]
    except BaseException:
        return "<unprintable>"
