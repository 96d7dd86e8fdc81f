"""Stops for failed, unreachable and skipped tasks."""

from __future__ import annotations

import sx
from sx import check, choose, flag, harness, observe, param, reach

import ansibug.dap as dap

from .strat import ROLE, World

RESULTS = [
    ("ok", {"changed": True}),
    ("failed", {"failed": True, "msg": "it broke"}),
    ("failed", {"failed": True, "stdout": "some output"}),
    ("failed", {"failed": True, "msg": "it broke", "exception": "Traceback: boom", "_ansible_no_log": False, "rc": 2}),
    ("failed", {"results": [{"item": 1}, {"failed": True, "item": 2}], "msg": "one item"}),
    ("ok", {"failed": True, "failed_when_result": False, "msg": "fine"}),
    ("failed", {"failed_when_result": True, "msg": "cond"}),
    ("unreachable", {"unreachable": True, "msg": "no route"}),
    ("skipped", {"skipped": True, "skip_reason": "Conditional result was False", "false_condition": "x == 1"}),
    ("skipped", {"results": [{"skipped": True}, {"skipped": True}], "skip_reason": "all"}),
    ("skipped", {"skipped": True, "skip_reason": "not now", "false_condition": False}),
    ("unreachable", {"unreachable": True, "msg": "no route", "exception": "Traceback: gone"}),
    ("ok", {"results": [{"skipped": True}, {"changed": True}]}),
    ("ok", {}),
]
FILTERS = ["on_error", "on_unreachable", "on_skipped"]


@harness(
    "C15",
    quick={"depth": 2, "results": [0, 1, 7, 8]},
    thorough={"depth": 3, "results": [0, 1, 7, 8]},
    expect=["rescued", "own-rescue", "stop:failed", "stop:unreachable", "stop:skipped", "quiet", "ignored"],
    bounds="a task 0..depth levels deep, each level a block without rescue, one section of a block with rescue, a dynamic include or a static import, in a role or not; a result of each class; ignore flags; every set of filters",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def filters() -> None:
    run(choose("depth", param("depth") + 1), RESULTS[param("results")[choose("result", len(param("results")))]], True)


@harness(
    "C15",
    quick={},
    expect=["stop:failed", "stop:unreachable", "stop:skipped", "quiet", "ignored"],
    bounds="14 result shapes (loops, failed_when, exceptions, skip details), ignore flags, every set of filters; then every way to resume, and the next task",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def results() -> None:
    run(0, RESULTS[choose("result", len(RESULTS))], False)


def run(depth: int, outcome: tuple, nested: bool) -> None:
    kind, data = outcome
    cur: dict = {"want": None, "n": 0}

    def client() -> None:
        ev = w.stop()
        tid = w.tid(host)
        check(ev.thread_id == tid, "the stop names another thread")
        cur["n"] += 1
        if cur["phase"] == "next":
            check(cur["cmd"] in ("next", "in"), "stops at the following task although the run was continued")
            check(ev.reason == dap.StoppedReason.STEP, "the stop gives the wrong reason")
            w.send(dap.ContinueRequest, thread_id=tid)
            return
        check(cur["want"] is True, "stops although no filter asks for it or the failure is handled")
        check(ev.reason == dap.StoppedReason.EXCEPTION, "the stop gives the wrong reason")
        check(not ev.hit_breakpoint_ids, "the stop names breakpoints")
        text = str(ev.text)
        word = {"failed": "fail", "unreachable": "unreachable", "skipped": "skip"}[kind]
        check(word in str(ev.description).lower(), "the stop does not say what happened to the task")
        for k in ("msg", "stdout", "exception", "skip_reason", "false_condition"):
            if k in data:
                check(str(data[k]) in text, f"the stop does not show the result's {k}")
        frames = w.frames(tid)
        check(frames[0].name == task.get_name(), "the stopped thread is not at the task that caused the stop")
        scopes = w.send(dap.ScopesRequest, frame_id=frames[0].id).scopes
        mine = [s for s in scopes if s.name == "Module Result"]
        check(len(mine) == 1 and mine[0] is scopes[0], "the result is not the first scope")
        got = w.send(dap.VariablesRequest, variables_reference=mine[0].variables_reference).variables
        check(
            sorted((v.name, v.value) for v in got) == sorted((k, repr(v)) for k, v in data.items()),
            "the result scope does not show the result",
        )
        check(mine[0].named_variables == len(data), "the result scope announces the wrong number of variables")
        cmd = cur["cmd"] = choose("cmd", ["continue", "next", "in", "out"]) if not nested else "continue"
        if cmd == "continue":
            w.send(dap.ContinueRequest, thread_id=tid)
        elif cmd == "next":
            w.send(dap.NextRequest, thread_id=tid)
        elif cmd == "in":
            w.send(dap.StepInRequest, thread_id=tid)
        else:
            w.send(dap.StepOutRequest, thread_id=tid)

    w = World(client)
    host = w.host("h1")
    # outermost first; an include's children live in a block of its own
    parent = w.root
    rescued = False
    joins: list = []
    for i in range(depth):
        lvl = choose(f"level{i}", ["plain", "block", "rescue", "always", "include", "import"])
        if lvl == "include":
            inc = w.task(parent, name="inc", action="include_tasks")
            joins.append((parent, inc))
            parent = w.block(inc)
            continue
        if lvl == "import":
            # a static import is replaced by its blocks, which keep it as parent
            imp = w.task(parent, name="imp", action="import_tasks")
            inner = w.block(imp)
            joins.append((parent, inner))
            parent = inner
            continue
        b = w.block(parent)
        joins.append((parent, b))
        if lvl == "plain":
            cur["section"] = "block"
        else:
            b.rescue = [w.task(b, name="r")]
            b.always = [w.task(b, name="a")]
            b.block = [w.task(b, name="b")]
            b.__dict__["sx_section"] = lvl
            if lvl == "block":
                rescued = True
            else:
                reach("own-rescue")
        parent = b
    task = w.task(parent, name="t")
    joins.append((parent, task))
    for p, child in joins:
        sect = p.__dict__.get("sx_section", "block")
        setattr(p, sect, getattr(p, sect) + [child])
    variant = choose("variant", ["plain", "copied", "role"]) if nested else "plain"
    if variant == "copied":
        task = task.copy()
    elif variant == "role":
        for p, child in joins:
            p._role = child._role = ROLE

    fl = [flag(f) for f in FILTERS]
    chosen = [f for f, on in zip(FILTERS, fl) if on]
    w.send(dap.SetExceptionBreakpointsRequest, filters=chosen)
    ignore_errors = flag("ignore_errors")
    ignore_unreachable = flag("ignore_unreachable")
    if choose("expression", 2):
        # the flags of the result are evaluated, those of the task are not
        task.ignore_errors = "{{ 1 == 2 }}"
        task.ignore_unreachable = "{{ 1 == 2 }}"
    fields = {"ignore_errors": ignore_errors, "ignore_unreachable": ignore_unreachable}

    want = False
    if kind == "failed":
        if ignore_errors:
            reach("ignored")
        elif rescued:
            reach("rescued")
        else:
            want = "on_error" in chosen
    elif kind == "unreachable":
        if ignore_unreachable:
            reach("ignored")
        else:
            want = "on_unreachable" in chosen
    elif kind == "skipped":
        want = "on_skipped" in chosen
    cur.update(want=want, phase="end", cmd=None)
    w.start(host, task)
    check(cur["n"] == 0, "stops before the task has run")
    w.end(host, task, dict(data), fields)
    check(cur["n"] == (1 if want else 0), "does not stop although a filter asks for it")
    reach(f"stop:{kind}" if want else "quiet")
    if not nested and want:
        cur.update(phase="next", n=0)
        follow = w.task(parent, name="follow")
        w.start(host, follow)
        check(cur["n"] == (1 if cur["cmd"] in ("next", "in") else 0), "does not stop at the task stepped to")
        w.end(host, follow)
    observe(want)
