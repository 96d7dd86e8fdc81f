"""The call stack a client sees."""

from __future__ import annotations

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap

from .c14 import Walk
from .strat import PATH, World


@harness(
    "C16",
    quick={"tasks": 4, "wraps": ["0", "1i"], "hosts": 1},
    thorough={"tasks": 5, "wraps": ["1i"], "hosts": 1},
    expect=["include", "unwound-two", "role", "apply", "failed-include"],
    bounds="every run of 1..tasks tasks through include_tasks (also with apply) and include_role nested up to tasks-1 deep, tasks inside explicit blocks and static imports after a few patterns, includes that fail or are skipped; every plain task with one of 4 results; a stop at every task",
    stubs="the strategy's condition variable hands control to the modelled client; roles answer with no blocks",
)
def nesting() -> None:
    run(param("tasks"), choose("wraps", param("wraps")), 1)


@harness(
    "C16",
    quick={"tasks": 3, "wraps": "0"},
    thorough={"tasks": 4, "wraps": "01"},
    expect=["include", "both-hosts"],
    bounds="the same for two hosts, where a host may skip tasks that the other one runs",
    stubs="the strategy's condition variable hands control to the modelled client; roles answer with no blocks",
)
def two_hosts() -> None:
    run(param("tasks"), param("wraps"), 2)


RESULTS: list = [
    ({"changed": True}, {}),
    ({"failed": True}, {"ignore_errors": True}),
    ({"skipped": True}, {}),
    ({"unreachable": True}, {"ignore_unreachable": True}),
]


def run(n: int, wraps: str, nhosts: int) -> None:
    cur: dict = {}
    seen: set = set()  # frame ids ever handed out
    inc_frames: dict = {}  # (host, include name) -> frame id

    def client() -> None:
        ev = w.stop()
        host = cur["host"]
        frames = w.frames(ev.thread_id)
        task, ancestors = cur["task"], cur["ancestors"]
        want = [task] + ancestors
        check(
            [f.name for f in frames] == [t.get_name() for t in want],
            "the stack is not the task followed by the includes it is inside",
        )
        check(
            [f.line for f in frames] == [t._ds._line_number for t in want],
            "a frame shows the wrong line",
        )
        for f in frames:
            check(f.source.path == PATH, "a frame shows the wrong file")
            check(f.source.name == "main.yml", "a frame shows the wrong file name")
        check(len({f.id for f in frames}) == len(frames), "two frames share an id")
        check(frames[0].id not in seen, "a frame id is used twice")
        seen.add(frames[0].id)
        for f, t in zip(frames[1:], ancestors):
            check(f.id == inc_frames[host.get_name(), t._uuid], "the frame of a running include has another id")
        if cur["kind"]:
            inc_frames[host.get_name(), task._uuid] = frames[0].id
        for f in frames:
            got = w.send(dap.ScopesRequest, frame_id=f.id).scopes
            check(len(got) >= 4, "a frame on the stack has no scopes")
        cur["stopped"] = True
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    hosts = [w.host(f"h{i}") for i in range(nhosts)]
    walk = Walk(w, wraps, 4 if nhosts == 1 else 2)
    for i in range(n):
        w.debugger.register_path_breakpoint(PATH, 2 + 2 * i, 1)
    w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=2 + 2 * i) for i in range(n)],
    )
    depth = 0
    outcome, fields = choose("result", RESULTS)
    left_out: set = set()
    for i in range(n):
        task, ancestors, kind = walk.next()
        if len(ancestors) <= depth - 2:
            reach("unwound-two")
        depth = len(ancestors) + (1 if kind else 0)
        if kind == 2:
            reach("apply")
        if kind == 3:
            reach("role")
        ran = 0
        for k, host in enumerate(hosts):
            if any((k, a) in left_out for a in ancestors):
                continue
            if nhosts > 1 and choose(f"skip{i}.{k}", 2):
                left_out.add((k, task))
                continue
            ran += 1
            cur.update(task=task, ancestors=ancestors, kind=kind, host=host, stopped=False)
            w.start(host, task)
            check(cur["stopped"], "does not stop at its breakpoint")
            bad = kind and nhosts == 1 and choose(f"bad{i}", 2)
            if bad:
                walk.stack.pop()
                reach("failed-include")
                w.end(host, task, {"skipped": True})
            elif kind:
                w.end(host, task)
            else:
                w.end(host, task, dict(outcome), fields)
        if ran == 2:
            reach("both-hosts")
    observe(len(seen))
