"""Evaluating an expression shows its value for a frame."""

from __future__ import annotations

import copy
import typing as t

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap

from .c18 import EXPRS, evaluate
from .strat import PATH, World, send_any, type_name

# (expression, its value for x and y and the name of the host)
FORMULAS: list = [
    ("x + y", lambda x, y, h: x + y),
    ("x - 2 * y", lambda x, y, h: x - 2 * y),
    ("inventory_hostname", lambda x, y, h: h),
    ("x > y", lambda x, y, h: bool(x > y)),
    ("{'k': [x > 0, 'y']}", lambda x, y, h: {"k": [bool(x > 0), "y"]}),
    ("[x, y] | max", lambda x, y, h: x if bool(x >= y) else y),
    ("x if y else h", lambda x, y, h: x if bool(y != 0) else KeyError),
    ("(x, y)[0]", lambda x, y, h: x),
    ("hostvars[inventory_hostname].hv + x", lambda x, y, h: (1 if h == "h1" else 2) + x),
]
SHOWS = ["repl", "watch", "clipboard", "variables"]


def shown(w: World, frame: t.Any, context: str, expr: str) -> t.Any:
    resp = send_any(w, dap.EvaluateRequest, expression=expr, context=context, frame_id=frame)
    check(isinstance(resp, dap.EvaluateResponse), "an evaluation is not answered with a result")
    return resp


def session(act: t.Callable) -> None:
    """Both hosts are in an include, h1 is stopped at a task in it."""
    done: list = []

    def client() -> None:
        ev = w.stop()
        frames = {"task": w.frames(ev.thread_id)[0].id}
        for host in hosts:
            fr = w.frames(w.tid(host))
            frames[host.get_name()] = fr[-1].id
        check(len(set(frames.values())) == 3, "frames have the same id")
        sent = len(w.sent)
        act(w, frames, data)
        check(not [m for m in w.sent[sent:] if isinstance(m, dap.Event)], "an evaluation sends an event")
        done.append(1)
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    hosts = [w.host("h1"), w.host("h2")]
    inc = w.task(w.root, name="inc", action="include_tasks", line=2)
    task = w.task(w.block(inc), name="t", line=4, args={"name": "v"})
    w.debugger.register_path_breakpoint(PATH, 4, 1)
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=4)])
    data: dict = {}

    def variables(where: str, host: t.Any) -> dict:
        x, y = (integer(f"{v} of {where}", -param("max"), param("max")) for v in "xy")
        v: dict = {"inventory_hostname": host.get_name(), "x": x, "y": y, "num": 7, "d": {1: "one"}}
        v["vars"] = copy.copy(v)
        v["hostvars"] = {"h1": {"hv": 1}, "h2": {"hv": 2}}
        data[where] = v
        return v

    for host in hosts:
        w.start(host, inc, variables(host.get_name(), host))
        w.end(host, inc)
    data["args"] = task.args
    w.start(hosts[0], task, variables("task", hosts[0]))
    check(done == [1], "does not stop once at a breakpoint")
    w.end(hosts[0], task)


def same(value: t.Any, resp: t.Any) -> None:
    if value is KeyError:
        reach("failed")
        check(resp.type is None, "an expression that cannot be evaluated has a type")
        check(len(resp.result) > 0, "an expression that cannot be evaluated says nothing")
    else:
        reach("value")
        check(resp.result == (repr(value) if isinstance(value, (str, dict)) else sx.text(value)), "an evaluation shows another value")
        check(resp.type == type_name(value), "an evaluation shows another type")


@harness(
    "C29",
    quick={"max": 1000, "n": 1},
    thorough={"max": 100000, "n": 2},
    expect=["value", "failed", "task", "h1", "h2", *SHOWS],
    bounds="a thread stopped at a task in an include and another one in the include; `n` evaluations of 9 formulas (4 after the first) over all integers x and y up to `max` in size, which differ between the frames, in each of the 3 frames and 4 contexts",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def frames() -> None:
    def act(w: World, frames: dict, data: dict) -> None:
        before = {k: dict(v) for k, v in data.items()}
        for i in range(param("n")):
            where = choose(f"frame{i}", list(frames))
            context = choose(f"context{i}", SHOWS if i == 0 else SHOWS[:1])
            text, f = FORMULAS[choose(f"formula{i}", len(FORMULAS) if i == 0 else 4)]
            reach(where)
            reach(context)
            v = data[where]
            want = f(v["x"], v["y"], v["inventory_hostname"])
            same(want, shown(w, frames[where], context, text))
            for k in data:
                check(set(data[k]) == set(before[k]) and all(data[k][n] is before[k][n] for n in before[k]), "an evaluation changes a variable")
        observe(where)

    session(act)


TEXTS = [e for e in EXPRS] + [
    ("!so name 1", KeyError),
    ("!sh num 1", KeyError),
    ("", KeyError),
    ("x | no_such_filter", KeyError),
    ("lookup('file', '/nowhere/at/all')", KeyError),
    ("1 / 0", KeyError),
    ("d[2]", KeyError),
    ("d[1]", "one"),
    ("' a '", " a "),
    ("x is defined", True),
    ("x.nothing is defined", False),
]


@harness(
    "C29",
    quick={"max": 0, "n": 2},
    thorough={"max": 0, "n": 2},
    expect=["value", "failed", "not shown", "unknown frame"],
    bounds="28 expressions (values of every type, texts with every kind of quote and brace, undefined, malformed and failing ones, console commands outside the console) in one of the 4 contexts that show values, in the hover context, without a frame and with an unknown one; each again after up to `n`-1 others",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def expressions() -> None:
    def act(w: World, frames: dict, data: dict) -> None:
        before = copy.deepcopy(data)
        for i in range(choose("n", list(range(1, param("n") + 1)))):
            expr = (TEXTS if i == 0 else TEXTS[::6])[choose(f"expr{i}", len(TEXTS) if i == 0 else len(TEXTS[::6]))]
            context = choose(f"context{i}", [*SHOWS, "hover", "no frame", "unknown frame"] if i == 0 else ["watch"])
            if expr[0].startswith("!") and context == "repl":
                sx.stop_path()
            if context in ("hover", "no frame"):
                reach("not shown")
                resp = shown(w, None if context == "no frame" else frames["task"], "watch" if context == "no frame" else context, expr[0])
                check(resp.type is None and "not implemented" in resp.result, "a value is shown that is not one of a frame")
            elif context == "unknown frame":
                reach("unknown frame")
                resp = send_any(w, dap.EvaluateRequest, expression=expr[0], context="watch", frame_id=max(frames.values()) + 1)
                check(isinstance(resp, dap.ErrorResponse), "an expression is evaluated for a frame that does not exist")
            else:
                same(evaluate(expr, data["task"])[1], shown(w, frames["task"], context, expr[0]))
            check(data == before, "an evaluation changes a variable")
        observe(expr[0], context)

    session(act)
