"""Histories of breakpoint requests and of files being loaded."""

from __future__ import annotations

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap

from sx.sched import Sched, install

from .c11 import A, B, resolve
from .dbg import drain, new_debugger, one, req

# The other file: one of the same name, and names that are like that of A.
OTHERS = ["/play/tasks/a.yml", "/play/A.yml", "/play/a.yml:2", "/play//a.yml"]
B = "other"

SETS = [
    (A, [], False),
    (A, [3], False),
    (A, [4, 2, 4], False),
    (A, [3], True),
    (B, [2], False),
    (B, [], False),
    (A, [4, 1], False),
    (B, [2], True),
]


@harness(
    "C12",
    quick={"steps": 4, "sets": 5, "others": 4},
    thorough={"steps": 5, "sets": 6, "others": 4},
    expect=["set", "replaced", "changed", "modified", "hit"],
    bounds="every history of 1..steps operations: SetBreakpoints requests (several lines, none, modified source, two files) and registrations (two files, two lines, task or not); the other file has the same name in another folder, or a path that differs in case, a suffix or a separator",
)
def histories() -> None:
    d = new_debugger()
    other = OTHERS[choose("other", param("others"))]
    regs: dict = {A: [], other: []}
    view: dict = {}  # what the client shows: id -> breakpoint
    live: dict = {A: [], other: []}  # (id, line, SourceBreakpoint) by file
    used: set = set()
    names = {A: "source-a", other: "source-b"}

    def events(msgs: list, path: str) -> None:
        for m in msgs:
            check(isinstance(m, dap.BreakpointEvent), "an unrelated message was sent")
            check(m.breakpoint.id in view, "an event names a breakpoint that was replaced or never existed")
            check(
                m.breakpoint.id in [i for i, _, _ in live[path]], "a breakpoint of another file is changed"
            )
            check(m.breakpoint.source.name == names[path], "an event carries another source")
            view[m.breakpoint.id] = m.breakpoint
            reach("changed")

    for step in range(choose("n", list(range(1, param("steps") + 1)))):
        op = choose(f"op{step}", param("sets") + 3)
        if op < param("sets"):
            path, lines, modified = SETS[op]
            path = other if path == B else path
            sbs = [dap.SourceBreakpoint(line=w, condition=f"c{step}.{k}") for k, w in enumerate(lines)]
            d.process_message(
                req(
                    dap.SetBreakpointsRequest,
                    step + 7,
                    source=dap.Source(name=names[path], path=path),
                    breakpoints=sbs,
                    source_modified=modified,
                )
            )
            resp = one(drain(d), dap.SetBreakpointsResponse, "not exactly one response")
            check(resp.request_seq == step + 7, "response does not name its request")
            check(len(resp.breakpoints) == len(lines), "not one breakpoint per requested line")
            for i, _, _ in live[path]:
                view.pop(i)
                reach("replaced")
            live[path] = []
            for b, w, sb in zip(resp.breakpoints, lines, sbs):
                check(b.id not in used, "a breakpoint id is used twice")
                check(b.source.name == names[path], "a response carries another source")
                used.add(b.id)
                if modified:
                    check(b.verified is False, "a breakpoint in a modified source is verified")
                    reach("modified")
                else:
                    live[path].append((b.id, w, sb))
                    view[b.id] = b
            reach("set")
        else:
            if op == param("sets") + 2:
                path, line, kind = other, 2, 1
            else:
                path, line, kind = A, 2 if op == param("sets") else 4, integer(f"kind{step}", 0, 1)
            d.register_path_breakpoint(path, line, kind)
            regs[path].append((line, kind))
            events(drain(d), path)

    for path in (A, other):
        at: dict = {}
        for i, w, sb in live[path]:
            ok, first, last = resolve(regs[path], w)
            b = view[i]
            check(b.verified == ok, "the client shows the wrong verified state")
            check(b.line == first, "the client shows the wrong line")
            check(b.end_line == last, "the client shows the wrong end line")
            at.setdefault(first, []).append((i, sb))
            observe(i, b.line, b.verified)
        kinds = dict(regs[path])
        for line in sorted(kinds):
            if kinds[line] == 1:
                got = d.get_breakpoint(path, line)
                if line in at:
                    check(got is not None, "a breakpoint that is set is not hit")
                    check(got.id in [i for i, _ in at[line]], "a breakpoint that was replaced is hit")
                    conds = [sb.condition for i, sb in at[line] if i == got.id]
                    check(got.source_breakpoint.condition in conds, "the hit has another request's condition")
                    reach("hit")
                else:
                    check(got is None, "a breakpoint that is not set (any more) is hit")


@harness(
    "C12",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["kept", "new", "loaded"],
    bounds="a SetBreakpoints request that keeps one breakpoint and adds or drops others, while the play checks a task and registers a new one; every schedule with up to `delays` departures from run-until-blocked at any statement of _debuggee.py",
    stubs="threads run on a chosen schedule (sx/sched.py)",
)
def concurrent() -> None:
    s = Sched(param("delays"), ("/_debuggee.py",))
    install()
    d = new_debugger()
    sx.cleanup(new_debugger)

    def sets(seq: int, lines: list) -> None:
        d.process_message(
            req(
                dap.SetBreakpointsRequest,
                seq,
                source=dap.Source(name="a", path=A),
                breakpoints=[dap.SourceBreakpoint(line=w, condition="c") for w in lines],
            )
        )

    s.frozen = True
    loaded = choose("loaded", [True, False])
    if loaded:
        d.register_path_breakpoint(A, 2, 1)
        d.register_path_breakpoint(A, 4, 1)
        reach("loaded")
    sets(1, choose("before", [[2], [4, 2], []]))
    before = {b.id: b for b in one(drain(d), dap.SetBreakpointsResponse, "not exactly one response").breakpoints}
    s.frozen = False
    second = choose("after", [[2], [2, 6, 7], [6]])
    failed: list = []
    hits: list = []

    def client() -> None:
        try:
            sets(2, second)
        except Exception as e:
            failed.append(e)

    def condition(text: str) -> bool:
        s.point("condition")
        return True

    def play() -> None:
        try:
            hits.append(d.get_breakpoint(A, 2, condition))
            d.register_path_breakpoint(A, 6, 1)
            hits.append(d.get_breakpoint(A, 2, condition))
        except Exception as e:
            failed.append(e)

    order = choose("first", 2)
    for f in (client, play) if order else (play, client):
        s.spawn(f, f.__name__)
    s.settle()
    check(not failed, f"setting breakpoints while the play is running fails: {failed}")
    check(len(hits) == 2, "the play does not go on: " + s.stuck())
    msgs = drain(d)
    resp = one(msgs, dap.SetBreakpointsResponse, "not exactly one response")
    view = {b.id: b for b in resp.breakpoints}
    for m in msgs[: msgs.index(resp)]:
        check(m.breakpoint.id in before, "an event comes before the response that introduces its breakpoint")
    for m in msgs[msgs.index(resp) + 1 :]:
        check(m.breakpoint.id in view, "an event names a breakpoint that was replaced")
        view[m.breakpoint.id] = m.breakpoint
    regs = ([(2, 1), (4, 1)] if loaded else []) + [(6, 1)]
    for i, w in zip([b.id for b in resp.breakpoints], second):
        ok, first, last = resolve(regs, w)
        b = view[i]
        check(b.verified == ok, "the client shows the wrong verified state")
        check(b.line == first, "the client shows the wrong line")
    if loaded and 2 in second and [b for b in before.values() if b.line == 2]:
        check(hits[0] is not None and hits[1] is not None, "a breakpoint that is kept is missed")
        reach("kept")
    if loaded and 2 in second and not order:
        reach("new")
    observe([h is not None for h in hits])
