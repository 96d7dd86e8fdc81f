"""Loads /repo's modules with their source instrumented for symbolic values.

The transformation is regenerated from the source on every import.  It keeps
the program as it is and only routes the operations that C code would decide
without asking the proxies (`in`, `is`, calls into builtins, f-strings) through
the functions below.
"""

from __future__ import annotations

import ast
import builtins
import collections
import functools
import importlib.machinery
import json
import logging
import os
import pickle
import queue
import struct
import sys
import threading
import types
import typing as t

import z3

from . import sym
from .core import ctx
from .sym import (
    SymBool,
    SymByteArray,
    SymBytes,
    SymEnum,
    SymInt,
    SymSeq,
    SymRope,
    SymStr,
    SymWin,
    concretize,
    deep_concretize,
    is_sym,
    kind_of,
    liftb,
    lifti,
    mk,
    mkraw,
    sand,
    snot,
    sor,
    zbool,
    zint,
)

ENTERED: set[str] = set()
SYMTYPES = frozenset(
    (SymBool, SymInt, SymEnum, SymStr, SymBytes, SymWin, SymRope, SymByteArray)
)


# ------------------------------------------------------------- operations


def sx_in(a: t.Any, b: t.Any) -> t.Any:
    tb = type(b)
    if tb in SYMTYPES:
        if tb is SymEnum:
            return sx_in(a, b._value())
        c = getattr(b, "_contains", None)
        if c is not None:
            return c(a)
        return a in b
    if type(a) in SYMTYPES:
        if tb in (list, tuple, collections.deque) or (
            tb in (set, frozenset) and all(not is_sym(x) for x in b)
        ):
            return sor(*[x is a or x == a for x in b]) if b else False
        if tb in (dict, collections.OrderedDict, collections.defaultdict) or isinstance(
            b, (type({}.keys()),)
        ):
            return sor(*[x == a for x in b]) if len(b) else False
        if tb in (str, bytes, bytearray):
            return mkraw(b)._contains(a)
        if tb is range and b.step == 1 and type(a) is SymInt:
            return sand(a >= b.start, a < b.stop)
    elif tb in (list, tuple) and any(type(x) in SYMTYPES for x in b):
        return sor(*[x is a or x == a for x in b])
    return a in b


def sx_not_in(a: t.Any, b: t.Any) -> t.Any:
    r = sx_in(a, b)
    return snot(r) if type(r) is SymBool else not r


def sx_is(a: t.Any, b: t.Any) -> t.Any:
    ta, tb = type(a), type(b)
    if ta is SymEnum:
        return a._pred(lambda c: sx_is(c, b))
    if tb is SymEnum:
        return b._pred(lambda c: sx_is(a, c))
    if (ta is SymBool and tb in (bool, SymBool)) or (tb is SymBool and ta is bool):
        return liftb(zbool(a) == zbool(b))
    if ta is SymInt and tb is SymInt:
        return a == b
    return a is b


def sx_is_not(a: t.Any, b: t.Any) -> t.Any:
    r = sx_is(a, b)
    return snot(r) if type(r) is SymBool else not r


_MISSING = object()


def _dict_key(d: t.Any, key: t.Any) -> t.Any:
    """The dict's own key equal to a symbolic one on this path, or _MISSING."""
    if type(key) is SymEnum:
        key = key._value()
        return key if key in d else _MISSING
    k = kind_of(key)
    for x in list(d):
        if is_sym(x):
            if bool(x == key):
                return x
            continue
        if k is not None:
            if kind_of(x) != k or (k == "b") != isinstance(x, bytes):
                continue
        elif not isinstance(x, (int, float)):
            continue
        if bool(key == x):
            return x
    return _MISSING


def sx_getitem(o: t.Any, k: t.Any) -> t.Any:
    tk = type(k)
    if tk in SYMTYPES:
        to = type(o)
        if isinstance(o, dict) and to.__getitem__ is dict.__getitem__ and not is_sym(o):
            r = _dict_key(o, k)
            if r is not _MISSING:
                return o[r]
            m = getattr(to, "__missing__", None)
            if m is None:
                raise KeyError(concretize(k))
            return o[concretize(k)]
        if to in (list, tuple) and tk is SymInt:
            n = len(o)
            if not bool(sand(k >= -n, k < n)):
                raise IndexError("list index out of range")
            if n <= 64 and not any(is_sym(x) for x in o):
                pos = lifti(z3.If(k.e < 0, k.e + n, k.e))
                return SymEnum.make(list(o), pos.e) if is_sym(pos) else o[pos]
        if isinstance(o, types.MappingProxyType) or isinstance(o, type) and not hasattr(o, "__class_getitem__"):
            return o[concretize(k)]
    elif tk is slice and type(o) is bytes:
        if any(type(x) in SYMTYPES for x in (k.start, k.stop)):
            return SymWin(sym.base_of(o), 0, len(o))[k]
    return o[k]


def to_symstr(v: t.Any, conv: int = -1, spec: t.Any = "") -> t.Any:
    """Formatting of one value into str or SymStr."""
    if conv == 114:
        return repr(v)
    if conv == 97:
        return ascii(v)
    if is_sym(spec):
        spec = concretize(spec)
    if type(v) in SYMTYPES and not spec:
        if type(v) is SymEnum:
            v = v._value()
            return to_symstr(v, conv, spec)
        if kind_of(v) == "s":
            return v
        if type(v) is SymInt:
            return v._symstr()
    return format(str(v) if conv == 115 else v, spec)


def sx_fstr(*parts: t.Any) -> t.Any:
    out = []
    symbolic = False
    for p in parts:
        if type(p) is tuple:
            r = to_symstr(*p)
        else:
            r = p
        if is_sym(r):
            symbolic = True
        out.append(r)
    if not symbolic:
        return "".join(out)
    items: list = []
    for r in out:
        items += sym.items_of(r)
    return mk("s", items)


def sx_mod(a: t.Any, b: t.Any) -> t.Any:
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        if any(is_sym(x) for x in args) and type(b) is not dict:
            pieces = a.split("%")
            simple = all(p[:1] in ("s", "d") for p in pieces[1:])
            if simple and len(pieces) == len(args) + 1:
                parts: list = [pieces[0]]
                for p, v in zip(pieces[1:], args):
                    parts.append((v, -1, ""))
                    parts.append(p[1:])
                return sx_fstr(*parts)
            return a % deep_concretize(b)
    return a % b


# -------------------------------------------------------------- call models


def m_len(x: t.Any) -> t.Any:
    tx = type(x)
    if tx in (SymWin, SymRope, SymByteArray):
        return x._len()
    f = getattr(tx, "_sx_len", None)
    if f is not None:
        return f(x)
    return len(x)


def m_isinstance(x: t.Any, cls: t.Any) -> t.Any:
    if type(x) is SymEnum:
        return x._pred(lambda c: m_isinstance(c, cls))
    return isinstance(x, cls)


def m_int(x: t.Any = 0, base: t.Any = None) -> t.Any:
    tx = type(x)
    if tx is SymEnum:
        x = x._value() if kind_of(x) or base is not None else lifti(x._as_int())
        return m_int(x) if base is None else int(x, base)
    if base is not None and concretize(base) != 10:
        return int(concretize(x), concretize(base))
    if tx in (SymStr, SymBytes):
        return x._parse_int()
    if tx in (SymWin, SymRope, SymByteArray):
        return m_int(mkraw(x)) if not isinstance(mkraw(x), bytes) else int(mkraw(x))
    if tx is SymInt:
        return x
    if tx is SymBool:
        return lifti(zint(x))
    return int(x) if base is None else int(x, base)


def m_str(x: t.Any = "", *a: t.Any) -> t.Any:
    tx = type(x)
    if a:
        if kind_of(x) == "b":
            return mkraw(x).decode(*a)
        return str(x, *a)
    if tx is SymEnum:
        return x._map(m_str)
    if kind_of(x) == "s" and tx in SYMTYPES:
        return x
    if tx is SymInt:
        return x._symstr()
    return str(x)


def m_repr(x: t.Any) -> t.Any:
    if type(x) is SymInt:
        return x._symstr()
    return repr(x)


def m_bytes(*a: t.Any, **k: t.Any) -> t.Any:
    if a and len(a) == 1:
        x = a[0]
        if type(x) is SymByteArray:
            return x.val
        if type(x) in (SymBytes, SymWin, SymRope):
            return x
        if type(x) is SymStr:
            raise TypeError("string argument without an encoding")
        if type(x) in (list, tuple) and any(type(i) in SYMTYPES for i in x):
            return mk("b", [zint(i) for i in x])
        if type(x) is SymInt:
            return bytes(concretize(x))
    elif a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:])
    return bytes(*a, **k)


def m_bytearray(*a: t.Any, **k: t.Any) -> t.Any:
    if not a:
        return SymByteArray(b"")
    if type(a[0]) is int:
        return bytearray(*a, **k)
    return SymByteArray(m_bytes(*a, **k))


def m_bool(x: t.Any = False) -> t.Any:
    if type(x) in SYMTYPES:
        if type(x) in (SymBool, SymInt, SymEnum):
            return liftb(zbool(x))
        if type(x) is SymWin:
            return liftb(sym._z(x.hi) > sym._z(x.lo))
        if type(x) is SymRope:
            return x._len() > 0
    return bool(x)


def m_ord(x: t.Any) -> t.Any:
    if type(x) in SYMTYPES:
        its = sym.items_of(x)
        if len(its) == 1:
            return lifti(its[0])
        raise TypeError("ord() expected a character")
    return ord(x)


def m_chr(x: t.Any) -> t.Any:
    if type(x) is SymInt:
        return mk("s", [x.e])
    return chr(x)


def _minmax(name: str) -> t.Callable:
    real = getattr(builtins, name)

    def f(*a: t.Any, **k: t.Any) -> t.Any:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not k and len(xs) >= 2 and any(type(x) is SymInt for x in xs):
            es = [zint(x) for x in xs]
            if all(e is not None for e in es):
                r = es[0]
                for e in es[1:]:
                    r, e = sym._z(r), sym._z(e)
                    r = z3.If(e < r, e, r) if name == "min" else z3.If(e > r, e, r)
                return lifti(r)
        return real(xs, **k) if len(a) == 1 else real(*a, **k)

    return f


class SymRange:
    def __init__(self, *a: t.Any) -> None:
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a[0], a[1], concretize(a[2])

    def __iter__(self) -> t.Iterator:
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def _contains(self, x: t.Any) -> t.Any:
        if self.step != 1:
            return x in list(self)
        return sand(x >= self.start, x < self.stop)

    def __contains__(self, x: t.Any) -> bool:
        return bool(self._contains(x))

    def __len__(self) -> int:
        return len(list(self))

    def __getitem__(self, i: t.Any) -> t.Any:
        return list(self)[i]

    def __reversed__(self) -> t.Iterator:
        return reversed(list(self))


def m_range(*a: t.Any) -> t.Any:
    if any(type(x) in SYMTYPES for x in a):
        return SymRange(*[lifti(zint(x)) for x in a])
    return range(*a)


def m_type(*a: t.Any) -> t.Any:
    if len(a) == 1 and type(a[0]) in SYMTYPES:
        return a[0].__class__
    return type(*a)


def m_from_bytes(b: t.Any, byteorder: t.Any = "big", *, signed: bool = False) -> t.Any:
    if type(b) in SYMTYPES and not signed:
        its = sym.items_of(b)
        if concretize(byteorder) == "big":
            its = its[::-1]
        e: t.Any = z3.IntVal(0)
        for i, x in enumerate(its):
            e = e + sym._z(x) * (256**i)
        return lifti(e)
    return int.from_bytes(concretize(b), concretize(byteorder), signed=signed)


_STRUCT = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def _struct_fmt(fmt: t.Any) -> t.Any:
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    codes = fmt
    std = False
    if fmt[:1] in "<>!=@":
        order = "big" if fmt[0] in ">!" else "little"
        std = fmt[0] not in "@"
        codes = fmt[1:]
    if not codes or any(c not in _STRUCT for c in codes):
        return None
    if not std and (len(codes) > 1 or codes == "L"):
        return None
    return order, [_STRUCT[c] for c in codes]


def m_struct_pack(fmt: t.Any, *vals: t.Any) -> t.Any:
    p = _struct_fmt(fmt)
    if p is None or len(p[1]) != len(vals):
        return struct.pack(fmt, *map(concretize, vals))
    out: list = []
    for n, v in zip(p[1], vals):
        try:
            if not is_sym(v):
                v = SymInt(z3.IntVal(v))
            b = v.to_bytes(n, p[0])
        except OverflowError as e:
            raise struct.error(str(e))
        out += sym.items_of(b)
    return mk("b", out)


def m_struct_unpack(fmt: t.Any, data: t.Any) -> t.Any:
    p = _struct_fmt(fmt)
    if p is None or not is_sym(data):
        return struct.unpack(fmt, concretize(data))
    its = sym.items_of(data)
    if len(its) != sum(p[1]):
        raise struct.error("unpack requires a buffer of the right size")
    out = []
    pos = 0
    for n in p[1]:
        out.append(m_from_bytes(mk("b", its[pos : pos + n]), p[0]))
        pos += n
    return tuple(out)


def m_memoryview(x: t.Any) -> t.Any:
    if type(x) is SymByteArray:
        return x.val
    if type(x) in SYMTYPES:
        return x
    return memoryview(x)


def m_fsdecode(x: t.Any) -> t.Any:
    return x if kind_of(x) == "s" else concretize(x)


MODELS: dict = {
    len: m_len,
    isinstance: m_isinstance,
    int: m_int,
    str: m_str,
    repr: m_repr,
    bytes: m_bytes,
    bool: m_bool,
    ord: m_ord,
    chr: m_chr,
    min: _minmax("min"),
    max: _minmax("max"),
    range: m_range,
    type: m_type,
    struct.pack: m_struct_pack,
    struct.unpack: m_struct_unpack,
    memoryview: m_memoryview,
}
# builtins that only use the operator protocol of their arguments
NATIVE = {
    sum,
    sorted,
    any,
    all,
    enumerate,
    zip,
    list,
    tuple,
    iter,
    next,
    reversed,
    map,
    filter,
    getattr,
    setattr,
    hasattr,
    abs,
    divmod,
    round,
    hash,
    id,
    callable,
    dict,
    set,
    frozenset,
    issubclass,
    print,
    collections.deque,
    functools.partial,
    object.__setattr__,
    object.__new__,
    super,
    property,
    vars,
}
DEEP_MODULES = {"json", "json.encoder", "pickle", "_pickle", "_json"}
_CONTAINERS = (
    list,
    dict,
    set,
    frozenset,
    collections.deque,
    collections.OrderedDict,
    collections.defaultdict,
)
_SAFE_MODULES = {
    "queue",
    "threading",
    "_queue",
    "contextlib",
    "dataclasses",
    "functools",
    "collections",
    "copy",
    "weakref",
    "enum",
    "types",
    "_thread",
    "itertools",
    "operator",
    "typing",
    "concurrent.futures",
    "abc",
}
SAFE_ROOTS = ["ansibug", "sx", "props", "__main__"]


def _mod_safe(mod: t.Any) -> bool:
    if not isinstance(mod, str):
        return False
    return mod.split(".")[0] in SAFE_ROOTS or mod in _SAFE_MODULES


def _safe_callable(f: t.Any) -> bool:
    """May receive proxies as they are."""
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, types.FunctionType):
        return "__sx__" in f.__globals__ or _mod_safe(f.__module__) or f.__code__.co_filename.startswith("<")
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return True
        return _mod_safe(f.__module__)
    if isinstance(f, functools.partial):
        return _safe_callable(f.func)
    if isinstance(f, types.BuiltinMethodType):
        s = getattr(f, "__self__", None)
        if s is None or isinstance(s, types.ModuleType):
            return _mod_safe(getattr(f, "__module__", None))
        return isinstance(s, _CONTAINERS) or is_sym(s)
    return _mod_safe(type(f).__module__)


def _enum_type(f: t.Any) -> bool:
    import enum

    return isinstance(f, type) and issubclass(f, enum.Enum)


def sx_call(f: t.Any, /, *a: t.Any, **k: t.Any) -> t.Any:
    if f is bytearray:
        return m_bytearray(*a, **k)
    if f is isinstance and len(a) == 2:
        return m_isinstance(*a)
    if f is len and len(a) == 1:
        return m_len(a[0])
    hit = False
    for x in a:
        if type(x) in SYMTYPES:
            hit = True
            break
        if type(x) in (list, tuple) and (
            f is bytes or isinstance(getattr(f, "__self__", None), (str, bytes))
        ):
            if any(type(y) in SYMTYPES for y in x):
                hit = True
                break
    if not hit and k:
        for x in k.values():
            if type(x) in SYMTYPES:
                hit = True
                break
    if not hit:
        if isinstance(f, types.BuiltinMethodType) and a:
            s = f.__self__
            if type(s) in (str, bytes) and f.__name__ == "join" and not isinstance(a[0], (list, tuple, str, bytes)):
                seq = list(a[0])
                if any(type(y) in SYMTYPES for y in seq):
                    return mkraw(s).join(seq)
                return s.join(seq)
            if f.__name__ in ("dumps", "dump") and f.__module__ in DEEP_MODULES:
                return f(*[deep_concretize(x) for x in a], **k)
        elif getattr(f, "__module__", None) in DEEP_MODULES and a:
            return f(*[deep_concretize(x) for x in a], **{x: deep_concretize(y) for x, y in k.items()})
        return f(*a, **k)
    # symbolic arguments
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if isinstance(f, types.MethodType) and isinstance(f.__self__, logging.Logger):
        return None
    if isinstance(f, types.BuiltinMethodType) or type(f) is type(str.join):
        s = getattr(f, "__self__", None)
        if type(s) in (str, bytes, bytearray):
            return getattr(mkraw(bytes(s) if type(s) is bytearray else s), f.__name__)(*a, **k)
        if f == int.from_bytes:
            return m_from_bytes(*a, **k)
        if type(f) is type(str.join) and f.__objclass__ in (str, bytes) and a:
            return getattr(mkraw(a[0]), f.__name__)(*a[1:], **k)
    if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, "__self__", None), dict) and a and type(a[0]) in SYMTYPES:
        d = f.__self__
        if f.__name__ in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            key = _dict_key(d, a[0])
            if key is not _MISSING:
                return f(key, *a[1:])
            if f.__name__ == "__contains__":
                return False
            if f.__name__ == "get":
                return a[1] if len(a) > 1 else None
            if f.__name__ == "pop":
                if len(a) > 1:
                    return a[1]
                raise KeyError(concretize(a[0]))
    try:
        if f in NATIVE:
            return f(*a, **k)
    except TypeError:
        pass
    if _enum_type(f) and len(a) == 1 and type(a[0]) is SymEnum:
        try:
            return a[0]._map(f)
        except ValueError:
            return f(concretize(a[0]))
    if _safe_callable(f):
        return f(*a, **k)
    if getattr(f, "__module__", None) in DEEP_MODULES:
        return f(*[deep_concretize(x) for x in a], **{x: deep_concretize(y) for x, y in k.items()})
    return f(*[concretize(x) for x in a], **{x: concretize(y) for x, y in k.items()})


def sx_enter(name: str) -> None:
    ENTERED.add(name)


RUNTIME = {
    "_sx_in": sx_in,
    "_sx_not_in": sx_not_in,
    "_sx_is": sx_is,
    "_sx_is_not": sx_is_not,
    "_sx_call": sx_call,
    "_sx_fstr": sx_fstr,
    "_sx_mod": sx_mod,
    "_sx_getitem": sx_getitem,
    "_sx_slice": slice,
    "_sx_enter": sx_enter,
    "_sx_neg": lambda x: snot(x) if type(x) is SymBool else not x,
}


class Transformer(ast.NodeTransformer):
    def __init__(self, module: str) -> None:
        self.module = module
        self.scope: list[str] = []

    def _name(self, n: str, ref: ast.AST) -> ast.AST:
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), ref)

    def _mkcall(self, fn: str, args: list, ref: ast.AST) -> ast.AST:
        c = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(c, ref)

    def visit_FunctionDef(self, node: t.Any) -> t.Any:
        # decorators, defaults and annotations run outside the body; leave them
        self.scope.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        qual = f"{self.module}.{'.'.join(self.scope)}"
        self.scope.pop()
        enter = ast.Expr(self._mkcall("_sx_enter", [ast.Constant(qual)], node))
        ast.copy_location(enter, node)
        pos = 0
        if (
            node.body
            and isinstance(node.body[0], ast.Expr)
            and isinstance(node.body[0].value, ast.Constant)
        ):
            pos = 1
        node.body.insert(pos, enter)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node: t.Any) -> t.Any:
        self.scope.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node: t.Any) -> t.Any:
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node: t.Any) -> t.Any:
        return node

    def visit_Compare(self, node: t.Any) -> t.Any:
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        fn = {
            ast.In: "_sx_in",
            ast.NotIn: "_sx_not_in",
            ast.Is: "_sx_is",
            ast.IsNot: "_sx_is_not",
        }.get(type(op))
        if fn is None:
            return node
        return self._mkcall(fn, [node.left, node.comparators[0]], node)

    def visit_UnaryOp(self, node: t.Any) -> t.Any:
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node: t.Any) -> t.Any:
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            sl = self._mkcall("_sx_slice", [none(sl.lower), none(sl.upper), none(sl.step)], node)
        elif isinstance(sl, ast.Tuple) and any(isinstance(x, (ast.Starred, ast.Slice)) for x in sl.elts):
            return node
        r = self._mkcall("_sx_getitem", [node.value, sl], node)
        return ast.fix_missing_locations(r)

    def visit_BinOp(self, node: t.Any) -> t.Any:
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._mkcall("_sx_mod", [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node: t.Any) -> t.Any:
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                args.append(
                    ast.Tuple(
                        elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load()
                    )
                )
            else:
                args.append(v)
        r = self._mkcall("_sx_fstr", args, node)
        return ast.fix_missing_locations(r)

    def visit_Call(self, node: t.Any) -> t.Any:
        if isinstance(node.func, ast.Name) and node.func.id in (
            "super",
            "locals",
            "globals",
        ):
            return node
        if isinstance(node.func, ast.Name) and node.func.id.startswith("_sx_"):
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("currentframe", "_getframe"):
            return node  # means the frame that it is called from
        c = ast.Call(
            func=ast.Name(id="_sx_call", ctx=ast.Load()),
            args=[node.func] + node.args,
            keywords=node.keywords,
        )
        return ast.copy_location(c, node)


class SxLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname: str) -> t.Any:
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data: t.Any, path: t.Any, *, _optimization: int = -1) -> t.Any:
        tree = ast.parse(data, path)
        tree = Transformer(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module: t.Any) -> None:
        module.__dict__["__sx__"] = True
        module.__dict__.update(RUNTIME)
        super().exec_module(module)


_ROOTS: list[str] = []


def _hook(path: str) -> t.Any:
    p = os.path.realpath(path)
    for r in _ROOTS:
        if p == r or p.startswith(r + "/"):
            return importlib.machinery.FileFinder(
                path, (SxLoader, importlib.machinery.SOURCE_SUFFIXES)
            )
    raise ImportError("not instrumented")


def install(root: str) -> None:
    _ROOTS.append(os.path.realpath(root))
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.dont_write_bytecode = True
