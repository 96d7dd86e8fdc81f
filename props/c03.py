"""DAP message codec."""

from __future__ import annotations

import dataclasses
import enum as _enum
import types
import typing as t

import sx
from sx import all_, check, choose, flag, harness, integer, observe, param, reach

import ansibug.dap as dap
from ansibug.dap import _events, _messages, _requests, _responses, _types
from .dapspec import KIND, SPEC

MODS = (_types, _requests, _responses, _events)


def cls_of(name: str) -> t.Any:
    for m in MODS:
        if hasattr(m, name):
            return getattr(m, name)
    raise LookupError(name)


_HINTS: dict = {}


def hints(cls: t.Any) -> dict:
    if cls not in _HINTS:
        ns: dict = {}
        for m in MODS:
            ns.update(vars(m))
        ns.update({"Command": _messages.Command, "MessageType": _messages.MessageType, "EventType": _messages.EventType})
        out: dict = {}
        for k in reversed(cls.__mro__):
            for n, a in k.__dict__.get("__annotations__", {}).items():
                out[n] = eval(a, ns) if isinstance(a, str) else a
        _HINTS[cls] = out
    return _HINTS[cls]


def strip_optional(tp: t.Any) -> tuple[t.Any, bool]:
    o = t.get_origin(tp)
    if o in (t.Union, types.UnionType):
        args = [a for a in t.get_args(tp) if a is not type(None)]
        opt = len(args) != len(t.get_args(tp))
        return (args[0] if len(args) == 1 else args[0]), opt
    return tp, False


def value(tp: t.Any, name: str, depth: int, nlist: int) -> t.Any:
    """An arbitrary value of a field's type."""
    tp, _ = strip_optional(tp)
    o = t.get_origin(tp)
    if tp is bool:
        return flag(name)
    if tp is int:
        return integer(name, -2, 10**9)
    if tp is str:
        return sx.string(name, 2, [(0, 0xD7FF)], minlen=2)
    if o is t.Literal:
        return sx.enum(name, list(t.get_args(tp)))
    if tp is t.Any:
        return {"any": [1, None]}
    if o in (list, t.List):
        inner = t.get_args(tp)[0]
        if depth <= 0 and isinstance(inner, _messages.DAPObjectMeta):
            return []
        return [value(inner, f"{name}.{i}", depth - 1, nlist) for i in range(nlist)]
    if o in (dict, t.Dict):
        return {"k": value(str, name + ".k", 0, 0), "sourceMaps": integer(name + ".d", 0, 9)}
    if isinstance(tp, type) and issubclass(tp, _enum.Enum):
        return sx.enum(name, list(tp))
    if isinstance(tp, _messages.DAPObjectMeta):
        return build(tp, name, depth - 1, nlist, None)[0]
    raise LookupError(f"no generator for {tp}")


def build(cls: t.Any, name: str, depth: int, nlist: int, absent: t.Any) -> tuple[t.Any, dict]:
    hs = hints(cls)
    kw: dict = {}
    for f in dataclasses.fields(cls):
        if not f.init:
            continue
        tp, opt = strip_optional(hs[f.name])
        if isinstance(tp, _messages.DAPObjectMeta) and depth <= 0 and opt:
            kw[f.name] = None
        elif opt and (absent == "all" or absent == f.name):
            kw[f.name] = None
        else:
            kw[f.name] = value(hs[f.name], f"{name}.{f.name}", depth, nlist)
    return cls(**kw), kw


def wire(x: t.Any) -> t.Any:
    """What the JSON encoder is handed, without turning it into text."""
    if type(x).__module__ == "sx.sym":
        if type(x).__name__ == "SymEnum" and isinstance(x._c[0], _enum.Enum):
            return x.value
        return x
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [wire(i) for i in x]
    if isinstance(x, dict):
        return {k: wire(v) for k, v in x.items()}
    return wire(_messages.DAPEncoder().default(x))


def spec_wire(x: t.Any) -> t.Any:
    """The JSON object the protocol prescribes for x."""
    name = type(x).__name__
    if name in SPEC and type(x).__module__.startswith("ansibug"):
        return spec_obj(x, SPEC[name])
    if type(x).__module__ == "sx.sym":
        return wire(x)
    if isinstance(x, _enum.Enum):
        return x.value
    if isinstance(x, list):
        return [spec_wire(i) for i in x]
    if isinstance(x, dict):
        return {k: spec_wire(v) for k, v in x.items()}
    return x


def spec_obj(x: t.Any, m: dict) -> dict:
    out: dict = {}
    for k, v in m.items():
        out[k] = spec_obj(x, v) if isinstance(v, dict) else spec_wire(getattr(x, v))
    if type(x).__name__ in ("AttachRequest", "LaunchRequest") and "arguments" in m:
        out["arguments"].update(x.arguments)
    return out


def same(a: t.Any, b: t.Any) -> t.Any:
    """Deep equality as one condition."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return all_([same(a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return all_([same(x, y) for x, y in zip(a, b)])
    if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b) and type(a) is type(b):
        return all_([same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a)])
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    ka = (isinstance(a, bool), isinstance(a, str))
    if ka != (isinstance(b, bool), isinstance(b, str)):
        return False
    return a == b


def optional_fields(cls: t.Any) -> list[str]:
    hs = hints(cls)
    return [f.name for f in dataclasses.fields(cls) if f.init and strip_optional(hs[f.name])[1]]


@harness(
    "C03",
    quick={"depth": 2, "lists": [0, 2]},
    thorough={"depth": 3, "lists": [0, 1, 2, 3]},
    expect=["request", "response", "event"],
    bounds="every request, response and event; every bool, every int -2..1e9, strings of 2 characters of the BMP below surrogates, every enum/literal; lists of 0 or 2 (thorough 0..3) items; nesting depth 2 (3); none, one or all optional fields absent",
    stubs="JSON text is bypassed (the encoder's default() hook is used); C02 covers the text",
)
def roundtrip() -> None:
    name = choose("class", list(KIND))
    cls = cls_of(name)
    opts = optional_fields(cls)
    absent = choose("absent", [None] + (["all"] if opts else []) + (opts if len(opts) > 1 else []))
    nlist = choose("nlist", param("lists")) if absent is None else 1
    msg, kw = build(cls, "m", param("depth"), nlist, absent)
    msg.seq = integer("seq", 1, 10**9)
    mtype, kind = KIND[name]
    expected = spec_wire(msg)
    expected["type"] = mtype
    if kind is not None:
        expected["event" if mtype == "event" else "command"] = kind
    if mtype == "response":
        expected["success"] = name != "ErrorResponse"
    # encode
    w = wire(msg.pack())
    for k in expected:
        check(k in w, f"{name}: {k} is not sent")
        check(same(w[k], expected[k]), f"{name}: {k} is encoded differently from the protocol")
    for k in w:
        check(k in expected, f"{name}: unknown key {k} is sent")
    # decode what the protocol prescribes
    back = dap.ProtocolMessage.unpack(expected)
    check(type(back) is cls, f"{name} is decoded as {type(back).__name__}")
    check(back.seq == msg.seq, f"{name}: seq is not decoded")
    for f in dataclasses.fields(cls):
        if f.name in ("seq", "message_type", "command", "event") and not f.init:
            continue
        a, b = getattr(back, f.name), getattr(msg, f.name)
        if a is None or b is None:
            # absent on the wire: the default applies
            if b is None and a is not None:
                d = f.default if f.default is not dataclasses.MISSING else None
                check(same(a, d), f"{name}.{f.name} absent is decoded as a value")
                continue
        check(same(a, b), f"{name}.{f.name} is decoded differently")
    reach(mtype)
    observe(name)


def flat(m: dict, x: t.Any) -> t.Iterator[tuple[tuple, str]]:
    for k, v in m.items():
        if isinstance(v, dict):
            for p, a in flat(v, x):
                yield (k,) + p, a
        else:
            yield (k,), v


@harness(
    "C03",
    expect=["decoded"],
    bounds="every request with each single optional JSON key left out, or with an unknown extra key",
)
def omitted() -> None:
    """Keys a client leaves out, or adds, never change the other fields."""
    names = [n for n, k in KIND.items() if k[0] == "request"]
    name = choose("class", names)
    cls = cls_of(name)
    fields = {f.name: f for f in dataclasses.fields(cls)}
    msg, kw = build(cls, "m", 1, 1, None)
    msg.seq = integer("seq", 1, 10**9)
    w = spec_wire(msg)
    w["type"], w["command"] = KIND[name]
    optional = [
        (p, a)
        for p, a in flat(SPEC[name], msg)
        if a in fields
        and fields[a].init
        and (
            fields[a].default is not dataclasses.MISSING
            or fields[a].default_factory is not dataclasses.MISSING
        )
    ]
    which = choose("omit", [None] + optional)
    omitted = None
    if which is None:
        w["zzUnknown"] = {"threadId": 99}
        if "arguments" in w and name not in ("AttachRequest", "LaunchRequest"):
            w["arguments"]["zzOther"] = 5
    else:
        p, omitted = which
        d = w
        for k in p[:-1]:
            d = d[k]
        del d[p[-1]]
    back = dap.ProtocolMessage.unpack(w)
    check(type(back) is cls, "decoded as another message")
    for f in fields.values():
        if f.name in ("message_type", "command", "event"):
            continue
        if f.name == omitted:
            d = f.default if f.default is not dataclasses.MISSING else f.default_factory()
            check(same(getattr(back, f.name), d), f"{name}.{f.name}: wrong default when the key is left out")
        else:
            check(same(getattr(back, f.name), getattr(msg, f.name)), f"{name}.{f.name} changes when another key is left out or added")
    reach("decoded")
