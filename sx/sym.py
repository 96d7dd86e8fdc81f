"""Symbolic proxies for Python values (imported in symbolic mode only)."""

from __future__ import annotations

import typing as t

import z3

from .core import Inconclusive, ctx

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Sym:
    """Base class of every proxy."""

    __slots__ = ()


def is_sym(x: t.Any) -> bool:
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def zbool(x: t.Any) -> t.Any:
    """Anything truthy/falsy as a z3 Bool, without forking when possible."""
    if isinstance(x, z3.BoolRef):
        return x
    tx = type(x)
    if tx is bool:
        return TRUE if x else FALSE
    if tx is SymBool:
        return x.e
    if tx is SymInt:
        return x.e != 0
    if tx is SymEnum:
        return x._truth()
    return TRUE if bool(x) else FALSE


def zint(x: t.Any) -> t.Any:
    """int-like as python int or z3 Int term."""
    tx = type(x)
    if tx is SymInt:
        return x.e
    if tx is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if tx is bool:
        return int(x)
    if tx is SymEnum:
        return x._as_int()
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, int):
        return int(x)
    return None


def liftb(e: t.Any) -> t.Any:
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def lifti(e: t.Any) -> t.Any:
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def sand(*xs: t.Any) -> t.Any:
    es = [zbool(x) for x in xs]
    return liftb(z3.And(*es) if es else TRUE)


def sor(*xs: t.Any) -> t.Any:
    es = [zbool(x) for x in xs]
    return liftb(z3.Or(*es) if es else FALSE)


def snot(x: t.Any) -> t.Any:
    return liftb(z3.Not(zbool(x)))


def concretize(x: t.Any) -> t.Any:
    """The ordinary value of a proxy on this path (forks over all of them)."""
    tx = type(x)
    if tx is SymBool:
        return ctx().branch(x.e)
    if tx is SymInt:
        return ctx().concretize_int(x.e)
    if tx is SymEnum:
        return x._value()
    if issubclass(tx, SymSeq):
        its = [i if isinstance(i, int) else ctx().concretize_int(i) for i in x.items]
        return "".join(map(chr, its)) if x.KIND == "s" else bytes(its)
    if tx is SymWin or tx is SymRope:
        return concretize(x._materialize())
    if tx is SymByteArray:
        return bytearray(concretize(x.val))
    return x


def deep_concretize(x: t.Any) -> t.Any:
    if is_sym(x):
        return deep_concretize(concretize(x))
    tx = type(x)
    if tx is list:
        return [deep_concretize(i) for i in x]
    if tx is tuple:
        return tuple(deep_concretize(i) for i in x)
    if tx is dict:
        return {deep_concretize(k): deep_concretize(v) for k, v in x.items()}
    return x


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e: t.Any) -> None:
        self.e = e

    @property
    def __class__(self) -> type:
        return bool

    def __bool__(self) -> bool:
        return ctx().branch(self.e)

    def __hash__(self) -> int:
        return hash(bool(self))

    def __eq__(self, o: t.Any) -> t.Any:
        if type(o) in (bool, SymBool):
            return liftb(self.e == zbool(o))
        i = zint(o)
        if i is None:
            return NotImplemented
        return liftb(zint(self) == i)

    def __ne__(self, o: t.Any) -> t.Any:
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o: t.Any) -> t.Any:
        if type(o) in (bool, SymBool):
            return sand(self, o)
        return concretize(self) & concretize(o)

    __rand__ = __and__

    def __or__(self, o: t.Any) -> t.Any:
        if type(o) in (bool, SymBool):
            return sor(self, o)
        return concretize(self) | concretize(o)

    __ror__ = __or__

    def __xor__(self, o: t.Any) -> t.Any:
        return snot(self == o)

    def __int__(self) -> int:
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o: t.Any) -> t.Any:
        return lifti(zint(self)) + o

    __radd__ = __add__

    def __repr__(self) -> str:
        return repr(bool(self))

    def __str__(self) -> str:
        return str(bool(self))

    def __format__(self, spec: str) -> str:
        return format(bool(self), spec)

    def __getattr__(self, name: str) -> t.Any:
        return getattr(bool(self), name)


def _cmp(op: str) -> t.Callable:
    def f(self: t.Any, o: t.Any) -> t.Any:
        a, b = zint(self), zint(o)
        if b is None:
            if isinstance(o, float):
                return getattr(concretize(self), op)(o)
            return NotImplemented
        if isinstance(a, int) and isinstance(b, int):
            return getattr(a, op)(b)
        if isinstance(a, int):
            a = z3.IntVal(a)
        if op == "__lt__":
            return liftb(a < b)
        if op == "__le__":
            return liftb(a <= b)
        if op == "__gt__":
            return liftb(a > b)
        return liftb(a >= b)

    return f


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e: t.Any) -> None:
        self.e = e

    @property
    def __class__(self) -> type:
        return int

    def __bool__(self) -> bool:
        return ctx().branch(self.e != 0)

    def __index__(self) -> int:
        return ctx().concretize_int(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self) -> float:
        return float(self.__index__())

    def __hash__(self) -> int:
        return hash(self.__index__())

    def __eq__(self, o: t.Any) -> t.Any:
        i = zint(o)
        if i is None:
            if isinstance(o, float):
                return concretize(self) == o
            return NotImplemented
        return liftb(self.e == i)

    def __ne__(self, o: t.Any) -> t.Any:
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __lt__ = _cmp("__lt__")
    __le__ = _cmp("__le__")
    __gt__ = _cmp("__gt__")
    __ge__ = _cmp("__ge__")

    def _arith(self, o: t.Any, f: t.Callable) -> t.Any:
        i = zint(o)
        if i is None:
            if isinstance(o, float):
                return f(concretize(self), o)
            return NotImplemented
        return lifti(f(self.e, i))

    def __add__(self, o: t.Any) -> t.Any:
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o: t.Any) -> t.Any:
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o: t.Any) -> t.Any:
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o: t.Any) -> t.Any:
        if type(o) in (str, bytes, list, tuple):
            return o * concretize(self)
        if type(o) is SymInt:
            o = concretize(o)
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o: t.Any) -> t.Any:
        o = concretize(o)
        if isinstance(o, int) and o > 0:
            return lifti(self.e / z3.IntVal(o))
        if type(o) is int and o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return concretize(self) // o

    def __mod__(self, o: t.Any) -> t.Any:
        o = concretize(o)
        if isinstance(o, int) and o > 0:
            return lifti(self.e % z3.IntVal(o))
        if type(o) is int and o == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return concretize(self) % o

    def __divmod__(self, o: t.Any) -> t.Any:
        return self // o, self % o

    def __truediv__(self, o: t.Any) -> t.Any:
        return concretize(self) / concretize(o)

    def __rtruediv__(self, o: t.Any) -> t.Any:
        return o / concretize(self)

    def __rfloordiv__(self, o: t.Any) -> t.Any:
        return o // concretize(self)

    def __rmod__(self, o: t.Any) -> t.Any:
        return o % concretize(self)

    def __pow__(self, o: t.Any) -> t.Any:
        return concretize(self) ** concretize(o)

    def __rpow__(self, o: t.Any) -> t.Any:
        return o ** concretize(self)

    def __neg__(self) -> t.Any:
        return lifti(-self.e)

    def __pos__(self) -> t.Any:
        return self

    def __abs__(self) -> t.Any:
        return lifti(z3.If(self.e >= 0, self.e, -self.e))

    def __lshift__(self, o: t.Any) -> t.Any:
        return self * (1 << concretize(o))

    def __rshift__(self, o: t.Any) -> t.Any:
        return self // (1 << concretize(o))

    def __rlshift__(self, o: t.Any) -> t.Any:
        return o << concretize(self)

    def __rrshift__(self, o: t.Any) -> t.Any:
        return o >> concretize(self)

    def __and__(self, o: t.Any) -> t.Any:
        o = concretize(o)
        if isinstance(o, int) and o >= 0:
            if (o + 1) & o == 0:  # low mask
                return self % (o + 1)
            if o & (o - 1) == 0:  # one bit
                return ((self // o) % 2) * o
            if o.bit_length() <= 12:
                return sum((((self // (1 << i)) % 2) * (1 << i) for i in range(12) if o >> i & 1), 0)
        if isinstance(o, int) and -4096 <= o < 0:
            return self - (self & ~o)
        return concretize(self) & o

    __rand__ = __and__

    def __or__(self, o: t.Any) -> t.Any:
        return concretize(self) | concretize(o)

    __ror__ = __or__

    def __xor__(self, o: t.Any) -> t.Any:
        return concretize(self) ^ concretize(o)

    __rxor__ = __xor__

    def __invert__(self) -> t.Any:
        return -self - 1

    def to_bytes(self, length: int = 1, byteorder: str = "big", *, signed: bool = False) -> t.Any:
        length = concretize(length)
        if signed:
            return concretize(self).to_bytes(length, byteorder, signed=True)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= 256**length:
            raise OverflowError("int too big to convert")
        items = [z3.simplify((self.e / (256**i)) % 256) for i in range(length)]
        if byteorder == "big":
            items.reverse()
        return mk("b", [norm(i) for i in items])

    def bit_length(self) -> int:
        return concretize(self).bit_length()

    def __round__(self, n: t.Any = None) -> t.Any:
        return self

    def _digits(self) -> list:
        """Decimal digits as items, forking on the number of digits only."""
        pre: list = []
        v: t.Any = self
        if self < 0:
            pre = [ord("-")]
            v = -self
        n = 1
        while v >= 10**n:
            n += 1
        e = zint(v)
        if isinstance(e, int):
            return pre + [ord(c) for c in str(e)]
        return pre + [
            norm(z3.simplify(48 + (e / (10**k)) % 10)) for k in reversed(range(n))
        ]

    def _symstr(self) -> t.Any:
        return mk("s", self._digits())

    def __repr__(self) -> str:
        return repr(self.__index__())

    def __str__(self) -> str:
        return str(self.__index__())

    def __format__(self, spec: str) -> str:
        return format(self.__index__(), spec)

    @property
    def real(self) -> t.Any:
        return self

    def __getattr__(self, name: str) -> t.Any:
        if name.startswith("_sx"):
            raise AttributeError(name)
        if not hasattr(int, name):
            raise AttributeError(f"'int' object has no attribute {name!r}", name=name, obj=0)
        return getattr(self.__index__(), name)


def norm(e: t.Any) -> t.Any:
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return e


class SymEnum(Sym):
    """One of finitely many ordinary values, selected by a symbolic index."""

    __slots__ = ("_c", "_i")

    def __init__(self, choices: t.Sequence, idx: t.Any) -> None:
        object.__setattr__(self, "_c", list(choices))
        object.__setattr__(self, "_i", idx)

    @staticmethod
    def make(choices: t.Sequence, idx: t.Any) -> t.Any:
        first = choices[0]
        if all(c is first for c in choices):
            return first
        if not any(is_sym(c) for c in choices):
            if all(type(c) is bool for c in choices):
                return liftb(z3.Or(*[idx == i for i, c in enumerate(choices) if c]))
            if all(type(c) is int for c in choices):
                e: t.Any = z3.IntVal(choices[-1])
                for i in range(len(choices) - 2, -1, -1):
                    e = z3.If(idx == i, z3.IntVal(choices[i]), e)
                return lifti(e)
            if all(type(c) in (str, bytes) and c == first and type(c) is type(first) for c in choices):
                return first
        return SymEnum(choices, idx)

    def _value(self) -> t.Any:
        return self._c[ctx().concretize_int(self._i)]

    def _truth(self) -> t.Any:
        return z3.Or(*[z3.And(self._i == k, zbool(c)) for k, c in enumerate(self._c)])

    def _as_int(self) -> t.Any:
        if all(isinstance(c, int) or type(c) in (SymInt, SymBool) for c in self._c):
            e: t.Any = zint(self._c[-1])
            if isinstance(e, int):
                e = z3.IntVal(e)
            for i in range(len(self._c) - 2, -1, -1):
                e = z3.If(self._i == i, zint(self._c[i]), e)
            return e
        v = self._value()
        return zint(v)

    def _map(self, f: t.Callable) -> t.Any:
        return SymEnum.make([f(c) for c in self._c], self._i)

    def _pred(self, f: t.Callable) -> t.Any:
        """f(choice) -> bool-like, as one formula."""
        return liftb(
            z3.Or(*[z3.And(self._i == k, zbool(f(c))) for k, c in enumerate(self._c)])
        )

    @property
    def __class__(self) -> type:
        classes = {c.__class__ for c in self._c}
        if len(classes) == 1:
            return classes.pop()
        return self._value().__class__

    def __bool__(self) -> bool:
        return ctx().branch(self._truth())

    def __eq__(self, o: t.Any) -> t.Any:
        return self._pred(lambda c: c == o)

    def __ne__(self, o: t.Any) -> t.Any:
        return snot(self.__eq__(o))

    def __hash__(self) -> int:
        return hash(self._value())

    def __getattr__(self, name: str) -> t.Any:
        vals = []
        for c in self._c:
            try:
                vals.append(getattr(c, name))
            except AttributeError:
                return getattr(self._value(), name)
        if any(callable(v) for v in vals):
            return getattr(self._value(), name)
        return SymEnum.make(vals, self._i)

    def __setattr__(self, name: str, value: t.Any) -> None:
        setattr(self._value(), name, value)

    def __repr__(self) -> str:
        return repr(self._value())

    def __str__(self) -> str:
        return str(self._value())

    def __format__(self, spec: str) -> str:
        return format(self._value(), spec)

    def __fspath__(self) -> t.Any:
        import os

        return os.fspath(self._value())


def _enum_delegate(name: str) -> None:
    def f(self: t.Any, *a: t.Any, **k: t.Any) -> t.Any:
        v = self._value()
        m = getattr(type(v), name, None)
        if m is None:
            raise TypeError(f"{type(v).__name__} object does not support {name}")
        return m(v, *a, **k)

    f.__name__ = name
    setattr(SymEnum, name, f)


for _n in (
    "__call__ __len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__ "
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __mod__ __floordiv__ __index__ "
    "__int__ __lt__ __le__ __gt__ __ge__ __and__ __or__ __enter__ __exit__ __next__ __neg__"
).split():
    _enum_delegate(_n)


# ---------------------------------------------------------------- sequences

_WS = [9, 10, 11, 12, 13, 32]
_WS_STR = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0]


def items_of(x: t.Any) -> list:
    tx = type(x)
    if tx is str or (isinstance(x, str) and not is_sym(x)):
        return [ord(c) for c in x]
    if tx in (bytes, bytearray):
        return list(x)
    if issubclass(tx, SymSeq):
        return list(x.items)
    if tx is SymWin or tx is SymRope:
        return items_of(x._materialize())
    if tx is SymByteArray:
        return items_of(x.val)
    if tx is SymEnum:
        return items_of(x._value())
    if tx is memoryview:
        return list(bytes(x))
    raise TypeError(f"not a string or bytes: {tx.__name__}")


def kind_of(x: t.Any) -> str | None:
    if is_sym(x):
        tx = type(x)
        if issubclass(tx, SymSeq):
            return x.KIND
        if tx in (SymWin, SymRope, SymByteArray):
            return "b"
        if tx is SymEnum:
            return kind_of(x._c[0])
        return None
    if isinstance(x, str):
        return "s"
    if isinstance(x, (bytes, bytearray, memoryview)):
        return "b"
    return None


def mk(kind: str, items: t.Sequence) -> t.Any:
    if all(isinstance(i, int) for i in items):
        return "".join(map(chr, items)) if kind == "s" else bytes(items)
    return SymStr(items) if kind == "s" else SymBytes(items)


def eq_item(a: t.Any, b: t.Any) -> t.Any:
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    return a == b


def eq_items(a: t.Sequence, b: t.Sequence) -> t.Any:
    if len(a) != len(b):
        return FALSE
    es = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return FALSE
            continue
        es.append(x == y)
    if not es:
        return TRUE
    return es[0] if len(es) == 1 else z3.And(*es)


def one_of(c: t.Any, codes: t.Sequence[int]) -> t.Any:
    if isinstance(c, int):
        return TRUE if c in codes else FALSE
    if not codes:
        return FALSE
    return z3.Or(*[c == k for k in codes])


def in_ranges(c: t.Any, *ranges: tuple[int, int]) -> t.Any:
    if isinstance(c, int):
        return TRUE if any(a <= c <= b for a, b in ranges) else FALSE
    return z3.Or(*[z3.And(c >= a, c <= b) for a, b in ranges])


def br(e: t.Any) -> bool:
    return ctx().branch(e)


class SymSeq(Sym):
    __slots__ = ("items",)
    KIND = "s"

    def __init__(self, items: t.Sequence) -> None:
        self.items = tuple(items)

    def _mk(self, items: t.Sequence) -> t.Any:
        return mk(self.KIND, items)

    def _arg(self, x: t.Any) -> list:
        if kind_of(x) != self.KIND:
            if self.KIND == "b" and isinstance(x, int):
                return [zint(x)]
            raise TypeError(f"expected {'str' if self.KIND == 's' else 'bytes-like'}, not {type(x).__name__}")
        return items_of(x)

    def __len__(self) -> int:
        return len(self.items)

    def __bool__(self) -> bool:
        return bool(self.items)

    def __hash__(self) -> int:
        return hash(concretize(self))

    def __iter__(self) -> t.Iterator:
        if self.KIND == "s":
            return iter([mk("s", [i]) for i in self.items])
        return iter([lifti(i) for i in self.items])

    def __getitem__(self, k: t.Any) -> t.Any:
        if isinstance(k, slice):
            k = slice(*[concretize(x) for x in (k.start, k.stop, k.step)])
            return self._mk(self.items[k])
        k = concretize(k)
        i = self.items[k]
        return mk("s", [i]) if self.KIND == "s" else lifti(i)

    def __eq__(self, o: t.Any) -> t.Any:
        if kind_of(o) != self.KIND:
            return NotImplemented if not isinstance(o, (str, bytes, int, type(None))) else False
        if type(o) is SymEnum:
            return o.__eq__(self)
        return liftb(eq_items(self.items, items_of(o)))

    def __ne__(self, o: t.Any) -> t.Any:
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _lt(self, a: list, b: list, strict: bool) -> bool:
        for x, y in zip(a, b):
            if br(eq_item(x, y)):
                continue
            return br((x < y) if not (isinstance(x, int) and isinstance(y, int)) else (TRUE if x < y else FALSE))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o: t.Any) -> t.Any:
        return self._lt(list(self.items), self._arg(o), True)

    def __le__(self, o: t.Any) -> t.Any:
        return self._lt(list(self.items), self._arg(o), False)

    def __gt__(self, o: t.Any) -> t.Any:
        return self._lt(self._arg(o), list(self.items), True)

    def __ge__(self, o: t.Any) -> t.Any:
        return self._lt(self._arg(o), list(self.items), False)

    def __add__(self, o: t.Any) -> t.Any:
        if kind_of(o) != self.KIND:
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o: t.Any) -> t.Any:
        if kind_of(o) != self.KIND:
            return NotImplemented
        return concat(o, self)

    def __mul__(self, n: t.Any) -> t.Any:
        return self._mk(self.items * concretize(n))

    __rmul__ = __mul__

    def __mod__(self, a: t.Any) -> t.Any:
        return concretize(self) % deep_concretize(a)

    def __repr__(self) -> str:
        return repr(concretize(self))

    def __str__(self) -> str:
        return str(concretize(self))

    def __format__(self, spec: str) -> str:
        return format(concretize(self), spec)

    def __getattr__(self, name: str) -> t.Any:
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretize(self), name)

    # -- searching
    def _bounds(self, start: t.Any, end: t.Any) -> tuple[int, int]:
        s, e, _ = slice(concretize(start), concretize(end)).indices(len(self.items))
        return s, e

    def _contains(self, sub: t.Any) -> t.Any:
        s = self._arg(sub)
        n = len(s)
        return liftb(
            z3.Or(FALSE, *[eq_items(self.items[i : i + n], s) for i in range(len(self.items) - n + 1)])
        )

    def __contains__(self, sub: t.Any) -> bool:
        return bool(self._contains(sub))

    def find(self, sub: t.Any, start: t.Any = None, end: t.Any = None) -> int:
        s = self._arg(sub)
        a, b = self._bounds(start, end)
        for i in range(a, b - len(s) + 1):
            if br(eq_items(self.items[i : i + len(s)], s)):
                return i
        return -1

    def rfind(self, sub: t.Any, start: t.Any = None, end: t.Any = None) -> int:
        s = self._arg(sub)
        a, b = self._bounds(start, end)
        for i in range(b - len(s), a - 1, -1):
            if br(eq_items(self.items[i : i + len(s)], s)):
                return i
        return -1

    def index(self, sub: t.Any, *a: t.Any) -> int:
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub: t.Any, *a: t.Any) -> int:
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub: t.Any, *a: t.Any) -> int:
        s = self._arg(sub)
        lo, hi = self._bounds(*(list(a) + [None, None])[:2])
        n = 0
        i = lo
        if not s:
            return max(hi - lo + 1, 0)
        while i <= hi - len(s):
            if br(eq_items(self.items[i : i + len(s)], s)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p: t.Any, start: t.Any = None, end: t.Any = None) -> t.Any:
        if isinstance(p, tuple):
            return sor(*[self.startswith(x, start, end) for x in p])
        s = self._arg(p)
        a, b = self._bounds(start, end)
        if b - a < len(s):
            return False
        return liftb(eq_items(self.items[a : a + len(s)], s))

    def endswith(self, p: t.Any, start: t.Any = None, end: t.Any = None) -> t.Any:
        if isinstance(p, tuple):
            return sor(*[self.endswith(x, start, end) for x in p])
        s = self._arg(p)
        a, b = self._bounds(start, end)
        if b - a < len(s):
            return False
        return liftb(eq_items(self.items[b - len(s) : b], s))

    def removeprefix(self, p: t.Any) -> t.Any:
        if self.startswith(p):
            return self._mk(self.items[len(self._arg(p)) :])
        return self

    def removesuffix(self, p: t.Any) -> t.Any:
        if len(self._arg(p)) and self.endswith(p):
            return self._mk(self.items[: -len(self._arg(p))])
        return self

    # -- splitting
    def partition(self, sep: t.Any) -> tuple:
        s = self._arg(sep)
        i = self.find(sep)
        if i < 0:
            return self, self._mk([]), self._mk([])
        return self._mk(self.items[:i]), self._mk(s), self._mk(self.items[i + len(s) :])

    def rpartition(self, sep: t.Any) -> tuple:
        s = self._arg(sep)
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self
        return self._mk(self.items[:i]), self._mk(s), self._mk(self.items[i + len(s) :])

    def split(self, sep: t.Any = None, maxsplit: t.Any = -1) -> list:
        maxsplit = concretize(maxsplit)
        out: list = []
        if sep is None:
            ws = self._ws()
            cur: list = []
            i = 0
            n = len(self.items)
            while i < n:
                if br(one_of(self.items[i], ws)):
                    if cur:
                        out.append(self._mk(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self._mk(self.items[i:])
                    out.append(rest.rstrip())
                    return out
                cur.append(self.items[i])
                i += 1
            if cur:
                out.append(self._mk(cur))
            return out
        s = self._arg(sep)
        if not s:
            raise ValueError("empty separator")
        pos = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(self._mk(self.items[pos:i]))
            pos = i + len(s)
        out.append(self._mk(self.items[pos:]))
        return out

    def rsplit(self, sep: t.Any = None, maxsplit: t.Any = -1) -> list:
        maxsplit = concretize(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return concretize(self).rsplit(None, maxsplit)
        s = self._arg(sep)
        out: list = []
        end = len(self.items)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.insert(0, self._mk(self.items[i + len(s) : end]))
            end = i
        out.insert(0, self._mk(self.items[:end]))
        return out

    def splitlines(self, keepends: bool = False) -> list:
        out: list = []
        cur: list = []
        i = 0
        its = self.items
        brk = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029] if self.KIND == "s" else [10, 13]
        while i < len(its):
            if br(one_of(its[i], brk)):
                end = [its[i]]
                if i + 1 < len(its) and br(z3.And(eq_item(its[i], 13), eq_item(its[i + 1], 10))):
                    end.append(its[i + 1])
                    i += 1
                out.append(self._mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(its[i])
            i += 1
        if cur:
            out.append(self._mk(cur))
        return out

    def _ws(self) -> list:
        return _WS_STR if self.KIND == "s" else _WS

    def lstrip(self, chars: t.Any = None) -> t.Any:
        codes = self._ws() if chars is None else self._arg(chars)
        i = 0
        while i < len(self.items) and br(self._inset(self.items[i], codes)):
            i += 1
        return self._mk(self.items[i:])

    def rstrip(self, chars: t.Any = None) -> t.Any:
        codes = self._ws() if chars is None else self._arg(chars)
        i = len(self.items)
        while i > 0 and br(self._inset(self.items[i - 1], codes)):
            i -= 1
        return self._mk(self.items[:i])

    @staticmethod
    def _inset(c: t.Any, codes: list) -> t.Any:
        if not codes:
            return FALSE
        return z3.Or(*[eq_item(c, k) for k in codes])

    def strip(self, chars: t.Any = None) -> t.Any:
        r = self.lstrip(chars)
        return r.rstrip(chars) if chars is None or not is_sym(chars) or is_sym(r) else mkraw(r).rstrip(chars)

    def replace(self, old: t.Any, new: t.Any, count: t.Any = -1) -> t.Any:
        o, n = self._arg(old), self._arg(new)
        count = concretize(count)
        if not o:
            return concretize(self).replace(concretize(old), concretize(new), count)
        out: list = []
        i = 0
        done = 0
        while i < len(self.items):
            if (count < 0 or done < count) and i + len(o) <= len(self.items) and br(
                eq_items(self.items[i : i + len(o)], o)
            ):
                out += n
                i += len(o)
                done += 1
            else:
                out.append(self.items[i])
                i += 1
        return self._mk(out)

    def join(self, parts: t.Any) -> t.Any:
        out: list = []
        for k, p in enumerate(parts):
            if k:
                out += self.items
            out += self._arg(p)
        return self._mk(out)

    # -- character classes (ASCII; others are resolved concretely)
    def _ascii(self) -> bool:
        for c in self.items:
            if isinstance(c, int):
                if c > 127:
                    return False
            elif not br(c < 128):
                return False
        return True

    def _cls(self, name: str, *ranges: tuple[int, int]) -> t.Any:
        if not self.items:
            return False
        if not self._ascii():
            return getattr(concretize(self), name)()
        return liftb(z3.And(*[in_ranges(c, *ranges) for c in self.items]))

    def isdigit(self) -> t.Any:
        return self._cls("isdigit", (48, 57))

    def isdecimal(self) -> t.Any:
        return self._cls("isdecimal", (48, 57))

    def isnumeric(self) -> t.Any:
        return self._cls("isnumeric", (48, 57))

    def isalpha(self) -> t.Any:
        return self._cls("isalpha", (65, 90), (97, 122))

    def isalnum(self) -> t.Any:
        return self._cls("isalnum", (48, 57), (65, 90), (97, 122))

    def isspace(self) -> t.Any:
        if self.KIND == "s":
            return self._cls("isspace", (9, 13), (28, 32))
        return self._cls("isspace", (9, 13), (32, 32))

    def isascii(self) -> t.Any:
        return liftb(z3.And(TRUE, *[in_ranges(c, (0, 127)) for c in self.items]))

    def lower(self) -> t.Any:
        if not self._ascii():
            return concretize(self).lower()
        return self._mk(
            [c if isinstance(c, int) and not 65 <= c <= 90 else norm(z3.simplify(z3.If(in_ranges(c, (65, 90)), c + 32, c))) for c in self.items]
        )

    casefold = lower

    def upper(self) -> t.Any:
        if not self._ascii():
            return concretize(self).upper()
        return self._mk(
            [c if isinstance(c, int) and not 97 <= c <= 122 else norm(z3.simplify(z3.If(in_ranges(c, (97, 122)), c - 32, c))) for c in self.items]
        )

    # -- numbers
    def _parse_int(self) -> t.Any:
        """int(text) in base 10."""
        if not self._ascii():
            return int(concretize(self))
        s = self.strip()
        its = items_of(s)

        def bad() -> t.NoReturn:
            raise ValueError("invalid literal for int() with base 10")

        if not its:
            bad()
        neg = False
        i = 0
        if br(one_of(its[0], [43, 45])):
            neg = br(eq_item(its[0], 45))
            i = 1
        if i >= len(its):
            bad()
        val: t.Any = z3.IntVal(0)
        prev_us = True
        for k in range(i, len(its)):
            c = its[k]
            if br(in_ranges(c, (48, 57))):
                val = val * 10 + (c - 48)
                prev_us = False
            elif br(eq_item(c, 95)) and not prev_us:
                prev_us = True
            else:
                bad()
        if prev_us:
            bad()
        return lifti(-val if neg else val)


def mkraw(x: t.Any) -> t.Any:
    """Wrap an ordinary str/bytes so that the symbolic methods apply."""
    if is_sym(x):
        if type(x) in (SymWin, SymRope):
            return mkraw(x._materialize())
        if type(x) is SymByteArray:
            return mkraw(x.val)
        return x
    return SymStr(items_of(x)) if isinstance(x, str) else SymBytes(items_of(x))


class SymStr(SymSeq):
    __slots__ = ()
    KIND = "s"

    @property
    def __class__(self) -> type:
        return str

    def __fspath__(self) -> str:
        return concretize(self)

    def encode(self, encoding: str = "utf-8", errors: str = "strict") -> t.Any:
        enc = concretize(encoding).lower().replace("_", "-")
        if enc in ("ascii", "us-ascii", "latin-1") or enc not in ("utf-8", "utf8"):
            if enc in ("ascii", "us-ascii") and self._ascii():
                return mk("b", self.items)
            return concretize(self).encode(encoding, errors)
        out: list = []
        for c in self.items:
            if isinstance(c, int):
                try:
                    out += list(chr(c).encode("utf-8", errors))
                except UnicodeEncodeError:
                    raise
                continue
            if br(c < 0x80):
                out.append(c)
            elif br(c < 0x800):
                out += [z3.simplify(0xC0 + c / 64), z3.simplify(0x80 + c % 64)]
            elif br(c < 0x10000):
                if br(in_ranges(c, (0xD800, 0xDFFF))):
                    out += list(chr(ctx().concretize_int(c)).encode("utf-8", errors))
                else:
                    out += [
                        z3.simplify(0xE0 + c / 4096),
                        z3.simplify(0x80 + (c / 64) % 64),
                        z3.simplify(0x80 + c % 64),
                    ]
            else:
                out += [
                    z3.simplify(0xF0 + c / 262144),
                    z3.simplify(0x80 + (c / 4096) % 64),
                    z3.simplify(0x80 + (c / 64) % 64),
                    z3.simplify(0x80 + c % 64),
                ]
        return mk("b", out)

    def format(self, *a: t.Any, **k: t.Any) -> str:
        return concretize(self).format(*map(concretize, a), **{x: concretize(y) for x, y in k.items()})


class SymBytes(SymSeq):
    __slots__ = ()
    KIND = "b"

    @property
    def __class__(self) -> type:
        return bytes

    def __bytes__(self) -> bytes:
        return concretize(self)

    def decode(self, encoding: str = "utf-8", errors: str = "strict") -> t.Any:
        if self._ascii():
            return mk("s", self.items)
        return concretize(self).decode(encoding, errors)

    def hex(self, *a: t.Any) -> str:
        return concretize(self).hex(*a)


# ------------------------------------------------------------------ windows


class Base:
    """A byte stream: `data` is ordinary bytes (or None for opaque content)."""

    def __init__(self, data: bytes) -> None:
        self.data = data


def base_of(b: bytes) -> Base:
    """The one Base of an ordinary bytes object on this path."""
    c = ctx()
    cache = getattr(c, "bases", None)
    if cache is None:
        cache = c.bases = {}
    e = cache.get(id(b))
    if e is None:
        e = cache[id(b)] = (b, Base(b))
    return e[1]


class SymWin(Sym):
    """base.data[lo:hi] with symbolic bounds, 0 <= lo <= hi <= len(base)."""

    __slots__ = ("base", "lo", "hi")

    def __init__(self, base: Base, lo: t.Any, hi: t.Any) -> None:
        self.base = base
        self.lo = lo
        self.hi = hi

    @staticmethod
    def make(base: Base, lo: t.Any, hi: t.Any) -> t.Any:
        lo, hi = norm(lo), norm(hi)
        if isinstance(lo, int) and isinstance(hi, int):
            return base.data[lo:hi]
        if z3.is_true(z3.simplify(_z(lo) == _z(hi))):
            return b""
        return SymWin(base, lo, hi)

    @property
    def __class__(self) -> type:
        return bytes

    def _len(self) -> t.Any:
        return lifti(z3.simplify(_z(self.hi) - _z(self.lo)))

    def __len__(self) -> int:
        return concretize(self._len())

    def __bool__(self) -> bool:
        return br(_z(self.hi) > _z(self.lo))

    def _materialize(self) -> bytes:
        lo = ctx().concretize_int(_z(self.lo))
        hi = ctx().concretize_int(_z(self.hi))
        return self.base.data[lo:hi]

    def __bytes__(self) -> bytes:
        return self._materialize()

    def __hash__(self) -> int:
        return hash(self._materialize())

    def __eq__(self, o: t.Any) -> t.Any:
        if kind_of(o) != "b":
            return False
        if type(o) is SymRope:
            o = o._one()
        if type(o) is SymWin:
            if o.base is self.base and z3.simplify(_z(o.lo) == _z(self.lo)).eq(TRUE):
                return liftb(_z(o.hi) == _z(self.hi))
            o = o._materialize()
        # length first, then content
        n = len(mkraw(o)) if is_sym(o) else len(o)
        if not br(_z(self.hi) - _z(self.lo) == n):
            return False
        lo = ctx().concretize_int(_z(self.lo))
        return mkraw(self.base.data[lo : lo + n]) == o

    def __ne__(self, o: t.Any) -> t.Any:
        return snot(self.__eq__(o))

    def __add__(self, o: t.Any) -> t.Any:
        if kind_of(o) != "b":
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o: t.Any) -> t.Any:
        if kind_of(o) != "b":
            return NotImplemented
        return concat(o, self)

    def _resolve(self, k: t.Any, default: t.Any) -> t.Any:
        """Slice bound relative to this window as an absolute term."""
        if k is None:
            return default
        e = zint(k)
        n = _z(self.hi) - _z(self.lo)
        if br(_z(e) < 0):
            e = _z(e) + n
            if br(e < 0):
                return self.lo
        if br(_z(e) > n):
            return self.hi
        return norm(z3.simplify(_z(self.lo) + e))

    def __getitem__(self, k: t.Any) -> t.Any:
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return mkraw(self._materialize())[k]
            a = self._resolve(k.start, self.lo)
            b = self._resolve(k.stop, self.hi)
            if br(_z(b) < _z(a)):
                return b""
            return SymWin.make(self.base, a, b)
        i = zint(k)
        n = _z(self.hi) - _z(self.lo)
        if br(_z(i) < 0):
            i = _z(i) + n
        if br(z3.Or(_z(i) < 0, _z(i) >= n)):
            raise IndexError("index out of range")
        pos = ctx().concretize_int(z3.simplify(_z(self.lo) + i))
        return self.base.data[pos]

    def find(self, sub: t.Any, start: t.Any = None, end: t.Any = None) -> t.Any:
        a = self._resolve(start, self.lo)
        b = self._resolve(end, self.hi)
        sub = bytes(concretize(sub))
        n = len(sub)
        pos = 0
        while True:
            o = self.base.data.find(sub, pos)
            if o < 0:
                return -1
            if br(z3.And(_z(a) <= o, o + n <= _z(b))):
                return lifti(z3.simplify(o - _z(self.lo)))
            pos = o + 1

    def index(self, *a: t.Any) -> t.Any:
        r = self.find(*a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def _contains(self, sub: t.Any) -> t.Any:
        if isinstance(sub, int):
            sub = bytes([sub])
        sub = bytes(concretize(sub))
        es = []
        pos = 0
        while True:
            o = self.base.data.find(sub, pos)
            if o < 0:
                break
            es.append(z3.And(_z(self.lo) <= o, o + len(sub) <= _z(self.hi)))
            pos = o + 1
        return liftb(z3.Or(FALSE, *es))

    def __contains__(self, sub: t.Any) -> bool:
        return bool(self._contains(sub))

    def startswith(self, p: t.Any, *a: t.Any) -> t.Any:
        if a or isinstance(p, tuple):
            return self._materialize().startswith(p, *a)
        p = bytes(concretize(p))
        if not br(_z(self.hi) - _z(self.lo) >= len(p)):
            return False
        return self[: len(p)] == p

    def partition(self, sep: t.Any) -> tuple:
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return self[:i], bytes(sep), self[i + len(sep) :]

    def __iter__(self) -> t.Iterator:
        return iter(self._materialize())

    def __repr__(self) -> str:
        return repr(self._materialize())

    def __getattr__(self, name: str) -> t.Any:
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._materialize(), name)


def _z(x: t.Any) -> t.Any:
    return z3.IntVal(x) if isinstance(x, int) else x


def concat(a: t.Any, b: t.Any) -> t.Any:
    k = kind_of(a)
    if k == "s":
        return mk("s", items_of(a) + items_of(b))
    if type(a) is SymByteArray:
        return SymByteArray(concat(a.val, b))
    if type(b) is SymByteArray:
        b = b.val
    for x, y in ((a, b), (b, a)):
        if type(x) in (bytes, bytearray) and not x:
            return y
    wins = (SymWin, SymRope)
    if type(a) in wins or type(b) in wins:
        if type(a) in (SymBytes, SymStr) or type(b) in (SymBytes, SymStr):
            return mk("b", items_of(a) + items_of(b))
        return SymRope.make(_pieces(a) + _pieces(b))
    return mk("b", items_of(a) + items_of(b))


def _pieces(x: t.Any) -> list:
    if type(x) is SymRope:
        return list(x.pieces)
    if type(x) is SymWin:
        return [x]
    return [bytes(x)]


def _join2(a: t.Any, b: t.Any) -> t.Any:
    """Two rope pieces as one, or None."""
    if type(a) is bytes and type(b) is bytes:
        return a + b
    if type(a) is SymWin and type(b) is SymWin and a.base is b.base:
        adj = z3.simplify(_z(a.hi) == _z(b.lo))
        if z3.is_true(adj) or (not z3.is_false(adj) and br(adj)):
            return SymWin.make(a.base, a.lo, b.hi)
        return None
    if type(a) is SymWin and type(b) is bytes:
        hi = norm(a.hi)
        if isinstance(hi, int):
            if hi == len(a.base.data):
                a.base.data += b  # append-only: other windows are unaffected
                return SymWin(a.base, a.lo, hi + len(b))
            if a.base.data[hi : hi + len(b)] == b:
                return SymWin(a.base, a.lo, hi + len(b))
    if type(a) is bytes and type(b) is SymWin:
        lo = norm(b.lo)
        if isinstance(lo, int) and lo >= len(a) and b.base.data[lo - len(a) : lo] == a:
            return SymWin(b.base, lo - len(a), b.hi)
    return None


class SymRope(Sym):
    """A concatenation of windows and ordinary bytes."""

    __slots__ = ("pieces",)

    def __init__(self, pieces: list) -> None:
        self.pieces = pieces

    @staticmethod
    def make(pieces: list) -> t.Any:
        out: list = []
        for p in pieces:
            if type(p) is bytes and not p:
                continue
            out.append(p)
            while len(out) > 1:
                j = _join2(out[-2], out[-1])
                if j is None:
                    # drop a window that is empty on every value of this path
                    break
                out[-2:] = [j]
        if not out:
            return b""
        return out[0] if len(out) == 1 else SymRope(out)

    def _one(self) -> t.Any:
        """As a single window when the junctions are fixed, else bytes."""
        ps = self.pieces
        data = b""
        lo: t.Any = 0
        hi: t.Any = 0
        for i, p in enumerate(ps):
            if type(p) is bytes:
                data += p
                hi = len(data)
                continue
            plo, phi = norm(p.lo), norm(p.hi)
            first, last = i == 0, i == len(ps) - 1
            if not first and not isinstance(plo, int):
                return self._materialize()
            if not last and not isinstance(phi, int):
                return self._materialize()
            start = 0 if first else plo
            chunk = p.base.data[start : (len(p.base.data) if last else phi)]
            off = len(data) - start
            if first:
                lo = plo
            data += chunk
            hi = phi + off if isinstance(phi, int) else z3.simplify(phi + off)
        return SymWin.make(Base(data), lo, hi)

    @property
    def __class__(self) -> type:
        return bytes

    def _len(self) -> t.Any:
        n: t.Any = 0
        for p in self.pieces:
            n = n + (len(p) if type(p) is bytes else p._len())
        return n

    def __len__(self) -> int:
        return concretize(self._len())

    def __bool__(self) -> bool:
        return bool(self._len() > 0)

    def _materialize(self) -> bytes:
        return b"".join(p if type(p) is bytes else p._materialize() for p in self.pieces)

    def __bytes__(self) -> bytes:
        return self._materialize()

    def __hash__(self) -> int:
        return hash(self._materialize())

    def __eq__(self, o: t.Any) -> t.Any:
        return self._one() == (o._one() if type(o) is SymRope else o)

    def __ne__(self, o: t.Any) -> t.Any:
        return snot(self.__eq__(o))

    def __add__(self, o: t.Any) -> t.Any:
        if kind_of(o) != "b":
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o: t.Any) -> t.Any:
        if kind_of(o) != "b":
            return NotImplemented
        return concat(o, self)

    def __getitem__(self, k: t.Any) -> t.Any:
        return self._one()[k]

    def _contains(self, sub: t.Any) -> t.Any:
        return mkwin(self._one())._contains(sub)

    def __contains__(self, sub: t.Any) -> bool:
        return bool(self._contains(sub))

    def __iter__(self) -> t.Iterator:
        return iter(self._materialize())

    def __repr__(self) -> str:
        return repr(self._materialize())

    def __getattr__(self, name: str) -> t.Any:
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(mkwin(self._one()), name)


def mkwin(x: t.Any) -> t.Any:
    return SymWin(Base(x), 0, len(x)) if type(x) is bytes else x


class SymByteArray(Sym):
    """A mutable byte buffer whose content may be symbolic."""

    __slots__ = ("val",)

    def __init__(self, val: t.Any = b"") -> None:
        if type(val) is SymByteArray:
            val = val.val
        if type(val) in (bytearray, memoryview):
            val = bytes(val)
        self.val = val

    @property
    def __class__(self) -> type:
        return bytearray

    def _len(self) -> t.Any:
        return self.val._len() if type(self.val) in (SymWin, SymRope) else len(self.val)

    def __len__(self) -> int:
        return len(self.val)

    def __bool__(self) -> bool:
        return bool(self.val)

    __hash__ = None  # type: ignore[assignment]

    def __eq__(self, o: t.Any) -> t.Any:
        if type(o) is SymByteArray:
            o = o.val
        r = self.val == o
        return r

    def __ne__(self, o: t.Any) -> t.Any:
        return snot(self.__eq__(o))

    def __iadd__(self, o: t.Any) -> t.Any:
        if type(o) is SymByteArray:
            o = o.val
        if kind_of(o) != "b":
            raise TypeError("can't concat to bytearray")
        self.val = concat(self.val, o)
        return self

    def __add__(self, o: t.Any) -> t.Any:
        return SymByteArray(concat(self.val, o))

    def __radd__(self, o: t.Any) -> t.Any:
        r = concat(o, self.val)
        return SymByteArray(r) if isinstance(o, bytearray) else r

    def extend(self, o: t.Any) -> None:
        if kind_of(o) != "b":
            o = mk("b", [zint(i) for i in o])
        self.__iadd__(o)

    def append(self, i: t.Any) -> None:
        self.__iadd__(mk("b", [zint(i)]))

    def clear(self) -> None:
        self.val = b""

    def copy(self) -> "SymByteArray":
        return SymByteArray(self.val)

    def __getitem__(self, k: t.Any) -> t.Any:
        if isinstance(k, slice):
            if type(self.val) is bytes and any(is_sym(x) for x in (k.start, k.stop)):
                self.val = SymWin(Base(self.val), 0, len(self.val))
            return SymByteArray(self.val[k])
        return self.val[concretize(k)] if type(self.val) not in (SymWin, SymRope) else self.val[k]

    def __delitem__(self, k: t.Any) -> None:
        if isinstance(k, slice) and k.step in (None, 1):
            self[k] = b""
            return
        b = bytearray(concretize(self.val))
        del b[k]
        self.val = bytes(b)

    def __setitem__(self, k: t.Any, v: t.Any) -> None:
        if isinstance(k, slice) and k.step in (None, 1):
            val = self.val
            if type(val) is SymRope:
                val = val._one()
            if type(val) is bytes:
                s = self.val = SymWin(Base(val), 0, len(val))
            else:
                s = val
            if type(s) is SymWin:
                a = s._resolve(k.start, s.lo)
                b = s._resolve(k.stop, s.hi)
                if br(_z(b) < _z(a)):
                    b = a
                head = SymWin.make(s.base, s.lo, a)
                tail = SymWin.make(s.base, b, s.hi)
            else:
                n = len(s)
                st, en, _ = slice(concretize(k.start), concretize(k.stop)).indices(n)
                en = max(en, st)
                head, tail = s[:st], s[en:]
            v = v.val if type(v) is SymByteArray else v
            self.val = concat(concat(head, v), tail)
            return
        its = items_of(self.val)
        its[concretize(k)] = zint(v)
        self.val = mk("b", its)

    def pop(self, i: int = -1) -> t.Any:
        its = items_of(self.val)
        r = its.pop(concretize(i))
        self.val = mk("b", its)
        return lifti(r)

    def __iter__(self) -> t.Iterator:
        return iter(self.val)

    def _contains(self, sub: t.Any) -> t.Any:
        if is_sym(self.val):
            return self.val._contains(sub)
        return mkraw(self.val)._contains(sub)

    def __contains__(self, sub: t.Any) -> bool:
        return bool(self._contains(sub))

    def __bytes__(self) -> bytes:
        return bytes(concretize(self.val))

    def __repr__(self) -> str:
        return repr(bytearray(concretize(self.val)))

    def __getattr__(self, name: str) -> t.Any:
        if name.startswith("__"):
            raise AttributeError(name)
        v = self.val
        if not is_sym(v):
            # symbolic arguments may follow
            f = getattr(v, name)

            def g(*a: t.Any, **k: t.Any) -> t.Any:
                if any(is_sym(x) for x in a):
                    return getattr(mkraw(v), name)(*a, **k)
                return f(*a, **k)

            return g
        return getattr(v, name)
