"""Where a breakpoint ends up, and when a task hits it."""

from __future__ import annotations

import sx
from sx import check, choose, flag, harness, integer, observe, param, reach

import ansibug.dap as dap

from .dbg import drain, new_debugger, one, req

A = "/play/a.yml"
B = "/play/tasks/a.yml"


def resolve(regs: list, line: int) -> tuple:
    """(verified, first, last) for a requested line; regs is [(line, type)]."""
    final: dict = {}
    for r, kind in regs:
        final[r] = kind
    if not final:
        return False, line, None
    known = sorted(final)
    at = [r for r in known if r <= line]
    after = [r for r in known if r > line]
    first = at[-1] if at else 0
    last = after[0] - 1 if after else known[-1]
    return (final[first] == 1) if at else False, first, last


@harness(
    "C11",
    quick={"regs": 3, "lines": 4, "bps": 2, "multi": 2},
    thorough={"regs": 4, "lines": 4, "bps": 2, "multi": 3},
    expect=["before", "after", "verified", "rejected", "past-end"],
    bounds="every sequence of 0..regs registrations (any line 1..lines, task or not, repeats allowed), SetBreakpoints with one line 0..lines+1 (bps of them when there are at most `multi` registrations) at any point in it",
)
def resolution() -> None:
    d = new_debugger()
    n = choose("regs", param("regs") + 1)
    at = choose("at", n + 1)
    lines = param("lines")
    want = []
    for j in range(choose("bps", list(range(1, (param("bps") if n <= param("multi") else 1) + 1)))):
        want.append(sx.concrete(integer(f"want{j}", 0, lines + 1)))

    regs: list = []
    view: dict = {}

    def apply(msgs: list) -> None:
        for m in msgs:
            check(isinstance(m, dap.BreakpointEvent), "an unrelated message was sent")
            check(m.reason == "changed", "breakpoint event is not a change")
            check(m.breakpoint.id in view, "an event names a breakpoint that the client does not have")
            view[m.breakpoint.id] = m.breakpoint

    ids: list = []
    for i in range(n + 1):
        if i == at:
            d.process_message(
                req(
                    dap.SetBreakpointsRequest,
                    5,
                    source=dap.Source(path=A),
                    breakpoints=[dap.SourceBreakpoint(line=w) for w in want],
                )
            )
            resp = one(drain(d), dap.SetBreakpointsResponse, "not exactly one response")
            check(resp.request_seq == 5, "response does not name its request")
            check(len(resp.breakpoints) == len(want), "not one breakpoint per requested line")
            for b in resp.breakpoints:
                ids.append(b.id)
                view[b.id] = b
            check(len(view) == len(want), "breakpoint ids are not unique")
            reach("after" if i else "before")
        if i < n:
            line = sx.concrete(integer(f"line{i}", 1, lines))
            kind = integer(f"kind{i}", 0, 1)
            d.register_path_breakpoint(A, line, kind)
            regs.append((line, kind))
            msgs = drain(d)
            if at <= i:
                apply(msgs)
            else:
                check(not msgs, 'messages are sent without a breakpoint')
            if i == 0:
                d.register_path_breakpoint(B, 2, 1)
                check(not drain(d), "another file changes the breakpoints")

    kinds = dict(regs)
    hits: dict = {}
    for bid, w in zip(ids, want):
        ok, first, last = resolve(regs, w)
        b = view[bid]
        check(b.verified == ok, "breakpoint is verified although there is no task, or the reverse")
        check(b.line == first, "breakpoint does not move to the task that covers its line")
        check(b.end_line == last, "breakpoint range does not end where the next entry begins")
        if first in kinds:
            hits.setdefault(first, []).append(bid)
        if ok:
            reach("verified")
        else:
            reach("rejected")
        if regs and w > max(kinds):
            reach("past-end")
        observe(b.line, b.end_line, b.verified)

    for line in sorted(kinds):
        if kinds[line] == 1:
            got = d.get_breakpoint(A, line)
            if line in hits:
                check(got is not None, "a task with a breakpoint on it is not stopped at")
                check(got.id in hits[line], "a task is stopped at for a breakpoint elsewhere")
            else:
                check(got is None, "a task without a breakpoint is stopped at")
    got = d.get_breakpoint(B, 2)
    check(got is None, "a breakpoint is hit in another file")
