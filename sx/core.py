"""Path exploration core of the symbolic executor.

A harness is an ordinary Python function that drives the real code of
/repo.  In symbolic mode its inputs are proxies over z3 terms; every branch
that depends on one asks the solver which sides are feasible and the harness is
re-executed once per feasible side (depth first, decision prefixes).  In
concrete mode the same harness runs with ordinary values taken from a solver
model, against the unmodified code: this is how counterexamples are replayed
and how explored paths are validated.
"""

from __future__ import annotations

import sys
import time
import typing as t

try:
    import z3
except ImportError:  # concrete mode (the project's own interpreter)
    z3 = None  # type: ignore[assignment]


class SxSignal(BaseException):
    """Steers exploration; never caught by `except Exception`."""


class Infeasible(SxSignal):
    pass


class Violation(SxSignal):
    pass


class Inconclusive(SxSignal):
    """The engine cannot decide: an error exit, never a success."""


class Budget(Inconclusive):
    pass


class PathStop(SxSignal):
    """The harness ends this path early (stated in its bounds)."""


CTX: t.Optional["Ctx"] = None


def ctx() -> "Ctx":
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


class Stats:
    FIELDS = (
        "paths",
        "infeasible",
        "decisions",
        "forks",
        "queries",
        "checks",
        "check_queries",
        "concretized",
    )

    def __init__(self) -> None:
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self) -> dict:
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        return d

    def add(self, d: dict) -> None:
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)


class Ctx:
    """State of one explored path (symbolic) or one replay (concrete)."""

    symbolic = False

    def __init__(self) -> None:
        self.names: dict[str, int] = {}
        self.observations: list = []
        self.labels: set[str] = set()
        self.violation: str | None = None
        self.cleanups: list[t.Callable[[], None]] = []
        self.params: dict = {}

    def fresh(self, name: str) -> str:
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"


class ConcreteCtx(Ctx):
    def __init__(self, assignment: dict[str, int]) -> None:
        super().__init__()
        self.assignment = assignment

    def value(self, name: str, lo: int, hi: int) -> int:
        v = self.assignment.get(name, lo)
        return v


class Solver:
    """One incremental z3 solver whose frames follow the decision stack."""

    def __init__(self, stats: Stats, timeout_ms: int = 60000) -> None:
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.frames: list[tuple[int, list]] = []  # (key, exprs)
        self.stats = stats

    def sync(self, pc: list) -> None:
        """Make the asserted frames equal to pc (list of z3 exprs)."""
        common = 0
        n = min(len(self.frames), len(pc))
        while common < n and self.frames[common].eq(pc[common]):
            common += 1
        drop = len(self.frames) - common
        if drop:
            self.s.pop(drop)
            del self.frames[common:]
        for e in pc[common:]:
            self.s.push()
            self.s.add(e)
            self.frames.append(e)

    def check(self, pc: list, extra: t.Any = None) -> t.Any:
        """Return a model or None (unsat)."""
        self.sync(pc)
        t0 = time.perf_counter()
        self.stats.queries += 1
        try:
            r = self.s.check(extra) if extra is not None else self.s.check()
        finally:
            self.stats.solver_s += time.perf_counter() - t0
        if r == z3.sat:
            return self.s.model()
        if r == z3.unsat:
            return None
        raise Inconclusive(f"solver answered unknown: {self.s.reason_unknown()}")


_PICKS: dict = {}


class SymCtx(Ctx):
    symbolic = True

    def __init__(
        self,
        solver: Solver,
        stats: Stats,
        prefix: list[tuple[t.Any, bool]],
        deadline: float | None,
    ) -> None:
        super().__init__()
        self.solver = solver
        self.stats = stats
        self.prefix = prefix
        self.trace: list[tuple[t.Any, bool]] = []
        self.pc: list = []
        self.pc_ids: dict[int, bool] = {}
        self.model: t.Any = None
        self.alternatives: list[list[tuple[t.Any, bool]]] = []
        self.vars: dict[str, t.Any] = {}
        self.deadline = deadline
        self.max_decisions = 20000
        self.keep: list = []  # keeps z3 asts alive for id() caches

    # -- variables
    def intvar(self, name: str, lo: int | None, hi: int | None) -> t.Any:
        v = z3.Int(name)
        self.vars[name] = v
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self._assert(z3.And(*cs) if len(cs) > 1 else cs[0])
        return v

    def _assert(self, e: t.Any) -> None:
        self.pc.append(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def _get_model(self) -> t.Any:
        if self.model is None:
            m = self.solver.check(self.pc)
            if m is None:
                raise Infeasible("path condition is unsatisfiable")
            self.model = m
        return self.model

    def _tick(self) -> None:
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("time budget exhausted before the exploration finished")
        if len(self.trace) > self.max_decisions:
            raise Budget("a path exceeded the decision bound")

    # -- decisions
    def branch(self, e: t.Any) -> bool:
        """Decide a z3 Bool, forking when both sides are feasible."""
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        known = self.pc_ids.get(e.get_id())
        if known is not None:
            return known
        return self._decide(e, None)

    def _decide(self, e: t.Any, tag: t.Any) -> bool:
        self._tick()
        idx = len(self.trace)
        self.stats.decisions += 1
        if idx < len(self.prefix):
            ptag, side = self.prefix[idx]
            if ptag != tag:
                raise Inconclusive(
                    f"non-deterministic re-execution: decision {idx} {ptag!r} != {tag!r}"
                )
            self._take(e, side, tag)
            return side
        m = self._get_model()
        val = m.eval(e, model_completion=True)
        if z3.is_true(val):
            side = True
        elif z3.is_false(val):
            side = False
        else:
            raise Inconclusive(f"model does not decide {e}")
        other = z3.Not(e) if side else e
        if self.solver.check(self.pc, other) is not None:
            self.stats.forks += 1
            self.alternatives.append(self.trace + [(tag, not side)])
        self._take(e, side, tag)
        return side

    def _take(self, e: t.Any, side: bool, tag: t.Any) -> None:
        self.trace.append((tag, side))
        ne = z3.simplify(z3.Not(e))
        self.keep.append(e)
        self.keep.append(ne)
        self.pc_ids[e.get_id()] = side
        self.pc_ids[ne.get_id()] = not side
        self._assert(e if side else ne)

    def concretize_int(self, e: t.Any) -> int:
        """Fork over every feasible value of an Int term."""
        if isinstance(e, int):
            return e
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.stats.concretized += 1
        while True:
            idx = len(self.trace)
            if idx < len(self.prefix):
                v = self.prefix[idx][0]
                if not isinstance(v, int):
                    raise Inconclusive("non-deterministic re-execution (value)")
            else:
                r = self._get_model().eval(e, model_completion=True)
                v = r.as_long()
            c = z3.simplify(e == v)
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                raise Inconclusive("inconsistent concretization")
            if self._decide(c, v):
                return v

    def pick(self, name: str, n: int) -> int:
        """Fork over a fresh variable 0..n-1; every value is feasible."""
        self._tick()
        v = self.vars.get(name)
        assert v is None
        idx = len(self.trace)
        self.stats.decisions += 1
        if idx < len(self.prefix):
            tag = self.prefix[idx][0]
            if not (isinstance(tag, tuple) and tag[0] == "pick" and tag[1] < n):
                raise Inconclusive(f"non-deterministic re-execution: decision {idx} {tag!r} is not a choice of {name}")
            k = tag[1]
        else:
            k = 0
            self.stats.forks += n - 1
            for j in range(n - 1, 0, -1):
                self.alternatives.append(self.trace + [(("pick", j), True)])
        v, e = self._pick_expr(name, k)
        self.vars[name] = v
        self.trace.append((("pick", k), True))
        self.pc.append(e)
        self.model = None
        return k

    def _pick_expr(self, name: str, k: int) -> t.Any:
        r = _PICKS.get((name, k))
        if r is None:
            v = z3.Int(name)
            r = _PICKS[(name, k)] = (v, v == k)
        return r

    def assume(self, e: t.Any) -> None:
        if e is True:
            return
        if e is False:
            raise Infeasible("assume(False)")
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible("assume(False)")
        self._assert(e)
        self._get_model()

    def check(self, e: t.Any, msg: str) -> None:
        self.stats.checks += 1
        if e is True:
            return
        if e is False:
            # the path itself is feasible: get a model of it
            self._get_model()
            self.violation = msg
            raise Violation(msg)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if self.pc_ids.get(e.get_id()) is True:
            return
        self.stats.check_queries += 1
        m = self.solver.check(self.pc, z3.Not(e))
        if m is not None:
            self.model = m
            self.violation = msg
            raise Violation(msg)

    def assignment(self) -> dict[str, int]:
        m = self._get_model()
        out = {}
        for name, v in self.vars.items():
            out[name] = m.eval(v, model_completion=True).as_long()
        return out


def set_ctx(c: Ctx | None) -> None:
    global CTX
    CTX = c
