"""What harnesses use; the same calls work in symbolic and concrete mode."""

from __future__ import annotations

import typing as t

from . import core
from .core import (
    ConcreteCtx,
    Inconclusive,
    Infeasible,
    PathStop,
    SxSignal,
    Violation,
    ctx,
)

HARNESSES: dict[str, "Harness"] = {}


class Injected:
    """Mixin of exceptions that a harness stub raises on purpose."""


class Harness:
    def __init__(self, func: t.Callable, prop: str, quick: dict, thorough: dict, expect: t.Sequence[str], bounds: str, stubs: str, budget: tuple[int, int], thorough_only: bool) -> None:
        self.func = func
        self.prop = prop
        self.name = f"{prop}.{func.__name__}"
        self.params = {"quick": quick, "thorough": {**quick, **thorough}}
        self.expect = list(expect)
        self.bounds = bounds
        self.stubs = stubs
        self.budget = {"quick": budget[0], "thorough": budget[1]}
        self.thorough_only = thorough_only


def harness(
    prop: str,
    *,
    quick: dict | None = None,
    thorough: dict | None = None,
    expect: t.Sequence[str] = (),
    bounds: str = "",
    stubs: str = "",
    budget: tuple[int, int] = (780, 3000),
    thorough_only: bool = False,
) -> t.Callable:
    def deco(f: t.Callable) -> t.Callable:
        h = Harness(f, prop, quick or {}, thorough or {}, expect, bounds, stubs, budget, thorough_only)
        HARNESSES[h.name] = h
        return f

    return deco


def symbolic() -> bool:
    return ctx().symbolic


def param(name: str, default: t.Any = None) -> t.Any:
    return ctx().params.get(name, default)


def cleanup(f: t.Callable[[], None]) -> None:
    ctx().cleanups.append(f)


def integer(name: str, lo: int, hi: int) -> t.Any:
    c = ctx()
    name = c.fresh(name)
    if lo == hi:
        return lo
    if not c.symbolic:
        return c.value(name, lo, hi)
    from .sym import SymInt

    return SymInt(c.intvar(name, lo, hi))


def flag(name: str) -> t.Any:
    c = ctx()
    name = c.fresh(name)
    if not c.symbolic:
        return c.value(name, 0, 1) != 0
    from .sym import SymBool

    return SymBool(c.intvar(name, 0, 1) == 1)


def choose(name: str, options: t.Any) -> t.Any:
    """A structural choice: the solver enumerates the feasible options."""
    c = ctx()
    opts = list(range(options)) if isinstance(options, int) else list(options)
    if len(opts) == 1:
        return opts[0]
    name = c.fresh(name)
    if c.symbolic:
        return opts[c.pick(name, len(opts))]
    return opts[c.value(name, 0, len(opts) - 1)]


def enum(name: str, options: t.Sequence) -> t.Any:
    """A value among options, left symbolic until the code looks at it."""
    c = ctx()
    opts = list(options)
    i = integer(name, 0, len(opts) - 1)
    if not c.symbolic or len(opts) == 1:
        return opts[i]
    from .sym import SymEnum

    return SymEnum.make(opts, i.e)


def _alpha(alphabet: t.Any) -> list[tuple[int, int]]:
    """'abc' or [(lo, hi), 'xyz', ...] as code point ranges."""
    if isinstance(alphabet, str):
        alphabet = [alphabet]
    out: list[tuple[int, int]] = []
    for a in alphabet:
        if isinstance(a, tuple):
            out.append(a)
        else:
            out += [(ord(ch), ord(ch)) for ch in a]
    return out


def _chars(name: str, minlen: int, maxlen: int, ranges: list[tuple[int, int]]) -> list:
    c = ctx()
    n = choose(name + ".len", list(range(minlen, maxlen + 1)))
    lo = min(a for a, _ in ranges)
    hi = max(b for _, b in ranges)
    out = []
    for k in range(n):
        v = integer(f"{name}[{k}]", lo, hi)
        if type(v) is not int:
            if len(ranges) > 1:
                import z3

                c.assume(z3.Or(*[z3.And(v.e >= a, v.e <= b) for a, b in ranges]))
            v = v.e
        out.append(v)
    return out


def string(name: str, maxlen: int, alphabet: t.Any, minlen: int = 0) -> t.Any:
    c = ctx()
    items = _chars(name, minlen, maxlen, _alpha(alphabet))
    if not c.symbolic:
        return "".join(map(chr, items))
    from .sym import mk

    return mk("s", items)


def bytestr(name: str, maxlen: int, alphabet: t.Any = ((0, 255),), minlen: int = 0) -> t.Any:
    c = ctx()
    items = _chars(name, minlen, maxlen, _alpha(list(alphabet) if not isinstance(alphabet, str) else alphabet))
    if not c.symbolic:
        return bytes(items)
    from .sym import mk

    return mk("b", items)


class Stream:
    """Successive symbolic-length pieces of one byte stream."""

    def __init__(self, data: bytes) -> None:
        self.data = data
        self.base = None
        if ctx().symbolic:
            from .sym import Base

            self.base = Base(data)

    def piece(self, lo: t.Any, hi: t.Any) -> t.Any:
        if self.base is None:
            return self.data[lo:hi]
        from .sym import SymWin, zint

        return SymWin.make(self.base, zint(lo), zint(hi))


def assume(cond: t.Any) -> None:
    c = ctx()
    if not c.symbolic:
        if not cond:
            raise Infeasible("assumption is false for this assignment")
        return
    from .sym import zbool

    c.assume(zbool(cond))


def check(cond: t.Any, msg: str) -> None:
    c = ctx()
    if not c.symbolic:
        if not cond:
            c.violation = msg
            raise Violation(msg)
        return
    if cond is True:
        c.stats.checks += 1
        return
    from .sym import zbool

    c.check(zbool(cond), msg)


def fail(msg: str) -> t.NoReturn:
    check(False, msg)
    raise AssertionError("unreachable")


def reach(label: str) -> None:
    ctx().labels.add(label)


def observe(*vals: t.Any) -> None:
    ctx().observations.append(vals)


def stop_path() -> t.NoReturn:
    raise PathStop()


def not_(a: t.Any) -> t.Any:
    if type(a).__module__ == "sx.sym":
        from .sym import snot

        return snot(a)
    return not a


def _anysym(xs: t.Iterable) -> bool:
    return any(type(x).__module__ == "sx.sym" for x in xs)


def all_(*xs: t.Any) -> t.Any:
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if _anysym(xs):
        from .sym import sand

        return sand(*xs)
    return all(xs)


def any_(*xs: t.Any) -> t.Any:
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if _anysym(xs):
        from .sym import sor

        return sor(*xs)
    return any(xs)


def implies(a: t.Any, b: t.Any) -> t.Any:
    return any_(not_(a), b)


def ite(c: t.Any, a: t.Any, b: t.Any) -> t.Any:
    """Integer if-then-else."""
    if _anysym((c,)):
        import z3

        from .sym import lifti, zbool, zint, _z

        return lifti(z3.If(zbool(c), _z(zint(a)), _z(zint(b))))
    return a if c else b


def is_(a: t.Any, b: t.Any) -> t.Any:
    if _anysym((a, b)):
        from .instr import sx_is

        return sx_is(a, b)
    return a is b


def concrete(x: t.Any) -> t.Any:
    """The ordinary value on this path (forks)."""
    if _anysym((x,)):
        from .sym import concretize

        return concretize(x)
    return x


def length(x: t.Any) -> t.Any:
    if _anysym((x,)):
        from .instr import m_len

        return m_len(x)
    return len(x)


def realize(x: t.Any, model: t.Any) -> t.Any:
    """x under a model, without forking (for observations)."""
    import z3

    from . import sym

    def ev(e: t.Any) -> int:
        if isinstance(e, int):
            return e
        return model.eval(e, model_completion=True).as_long()

    tx = type(x)
    if tx is sym.SymBool:
        return z3.is_true(model.eval(x.e, model_completion=True))
    if tx is sym.SymInt:
        return ev(x.e)
    if tx is sym.SymEnum:
        return realize(x._c[ev(x._i)], model)
    if tx in (sym.SymStr, sym.SymBytes):
        its = [ev(i) for i in x.items]
        return "".join(map(chr, its)) if x.KIND == "s" else bytes(its)
    if tx is sym.SymWin:
        return x.base.data[ev(x.lo) : ev(x.hi)]
    if tx is sym.SymRope:
        return b"".join(realize(p, model) for p in x.pieces)
    if tx is sym.SymByteArray:
        return bytes(realize(x.val, model))
    if tx in (list, tuple, set, frozenset):
        return [realize(i, model) for i in x]
    if tx is dict:
        return {realize(k, model): realize(v, model) for k, v in x.items()}
    return x


def canon(x: t.Any) -> t.Any:
    """JSON-able rendering used to compare symbolic and concrete runs."""
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        if isinstance(x, int) and not isinstance(x, bool):
            return int(x)
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return "b:" + bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if isinstance(x, dict):
        return {str(canon(k)): canon(v) for k, v in x.items()}
    return type(x).__name__


def reset_singletons(*classes: type) -> None:
    """Forget instances held by a singleton metaclass, however it keeps them."""
    for cls in classes:
        for holder in (type(cls), cls):
            for k, v in list(vars(holder).items()):
                if isinstance(v, dict):
                    for key in list(v):
                        if key is cls or isinstance(v[key], cls):
                            del v[key]
                elif holder is cls and isinstance(v, cls):
                    setattr(cls, k, None)


_COPIES: dict[str, t.Any] = {}


def instrumented(name: str) -> t.Any:
    """A library module whose source can run on proxies (the module itself when concrete)."""
    import importlib
    import importlib.util

    real = importlib.import_module(name)
    if not ctx().symbolic:
        return real
    if name not in _COPIES:
        from .instr import SxLoader

        loader = SxLoader("sx." + name.replace(".", "_"), real.__file__)
        spec = importlib.util.spec_from_loader(loader.name, loader, origin=real.__file__)
        mod = importlib.util.module_from_spec(spec)
        mod.__file__ = real.__file__
        loader.exec_module(mod)
        for k, v in list(vars(mod).items()):
            if hasattr(v, "cache_info") and hasattr(v, "__wrapped__"):
                setattr(mod, k, v.__wrapped__)  # a cache would hash proxies
        _COPIES[name] = mod
    return _COPIES[name]


def text(x: t.Any) -> t.Any:
    """The decimal digits of an integer."""
    if _anysym((x,)):
        return x._symstr()
    return str(x)


class Shim:
    """A module with some names replaced."""

    def __init__(self, real: t.Any, **names: t.Any) -> None:
        self.__dict__.update(names)
        self._real = real

    def __getattr__(self, name: str) -> t.Any:
        return getattr(self._real, name)


def patch_module(mod: t.Any, real: t.Any, **names: t.Any) -> None:
    """Replace names of `real` wherever `mod` refers to them."""
    shim = Shim(real, **names)
    todo = []
    for k, v in list(vars(mod).items()):
        if v is real:
            todo.append((k, v, shim))
        for n, new in names.items():
            if v is getattr(real, n, None):
                todo.append((k, v, new))
    for k, _old, new in todo:
        setattr(mod, k, new)

    def undo() -> None:
        for k, old, _new in todo:
            setattr(mod, k, old)

    cleanup(undo)
