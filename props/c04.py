"""A playbook starts with what its client has configured."""

from __future__ import annotations

import os
import typing as t

from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .c07 import script
from .strat import PATH
from .system import STUBS, System

LINES = ("/_debug_adapter.py", "/_debuggee.py", "/_mp_queue.py")

# What the client calls the folder of the playbook.
LOCAL = "/client"


def client_path() -> str:
    return LOCAL + "/" + os.path.basename(PATH)


@harness(
    "C04",
    quick={"delays": 0, "requests": 2},
    thorough={"delays": 0, "requests": 3},
    expect=["attach", "launch", "mapped", "breakpoint", "filter", "running", "waiting"],
    bounds="launched and attached playbooks (waiting or not) of three tasks, with and without a path mapping; every sequence of up to `requests` configuration requests (breakpoints in the playbook set to one or two tasks or removed, exception filters set or replaced), sent one by one or at once, then (at any time if one by one) configurationDone; no schedule but run-until-blocked",
    stubs=STUBS,
)
def sequences() -> None:
    configured(choose("kind", ["attach", "launch", "running"]), choose("mapped", 2), choose("at once", 2), ())


@harness(
    "C04",
    quick={"delays": 1, "requests": 1, "lines": LINES[:1]},
    thorough={"delays": 1, "requests": 2, "lines": LINES},
    expect=["attach", "launch", "breakpoint", "filter", "running", "waiting"],
    bounds="launched and attached playbooks (waiting or not) of three tasks; up to `requests` configuration requests and configurationDone, all sent at once; every schedule with up to `delays` departures from run-until-blocked at any statement of the named files",
    stubs=STUBS,
)
def schedules() -> None:
    configured(choose("kind", ["attach", "launch", "running"]), 0, 1, param("lines"))


def configured(kind: str, mapped: int, at_once: int, statements: t.Any) -> None:
    sy = System(param("delays"), statements)
    h1 = Host("h1")
    a, b, c = (sy.task(n) for n in "abc")
    sy.results = {"b": {"failed": True}}
    reach(kind)
    path = PATH
    args: dict = {}
    if mapped:
        reach("mapped")
        args = {"pathMappings": [{"localRoot": LOCAL, "remoteRoot": os.path.dirname(PATH)}]}
        path = client_path()
    play = [(h1, a, {}), (h1, b, {}), (h1, c, {})]
    with sy.calm():
        if kind != "launch":
            sy.start_playbook([play], no_wait_for_config_done=kind == "running")
            if kind == "running":
                sy.s.hold("playbook", "play")
            sy.turn()
        sy.start_adapter()
        sy.ok_turn("initialize", adapterID="x")
        if kind == "launch":
            start = sy.send("launch", playbook="pb.yml", **args)
            sy.turn()
            addr, _end = script(sy)
            run = [m for m in sy.msgs if m["type"] == "request"][0]
            sy.start_playbook([play], mode="connect", debug_addr=addr)
            sy.respond(run)
        else:
            start = sy.send("attach", **sy.target(), **args)
    sy.turn()
    sy.ok(start, "launch or attach")
    check(len(sy.events("initialized")) == 1, "the client is not told once that it can configure: " + sy.s.stuck())
    order = [m for m in sy.msgs if m in sy.events("initialized") or m in sy.responses(start)]
    check(order[0]["type"] == "response", "the client can configure before it is attached")
    check(not sy.executed, "a task is run before the configuration is done")
    lines: list[int] = []
    filters: list[str] = []
    seqs: list[tuple[str, int, t.Any]] = []
    for i in range(param("requests")):
        what = choose(f"request{i}", ["breakpoint", "filter", "nothing"])
        if what == "nothing":
            break
        reach(what)
        if what == "breakpoint":
            lines = choose(f"lines{i}", [[a._ds._line_number], [b._ds._line_number, c._ds._line_number], []])
            seq = sy.send("setBreakpoints", source={"path": path}, breakpoints=[{"line": x} for x in lines])
            seqs.append((what, seq, lines))
        else:
            filters = choose(f"filters{i}", [["on_error"], ["on_unreachable", "on_skipped"], []])
            seq = sy.send("setExceptionBreakpoints", filters=filters)
            seqs.append((what, seq, filters))
        if not at_once:
            sy.turn()
            sy.ok(seq, what)
            check(not sy.executed, "a task is run before the configuration is done")
    if not at_once:
        # However long that takes.
        sy.turn(patient=True)
        check(not sy.executed, "a task is run before the configuration is done")
    done = sy.send("configurationDone")
    sy.turn()
    if kind == "running":
        sy.s.unhold("playbook")
        sy.turn()
        reach("running")
    else:
        reach("waiting")
    for what, seq, asked in seqs:
        r = sy.ok(seq, what)
        if what == "breakpoint":
            check(len(r["body"]["breakpoints"]) == len(asked), "another number of breakpoints is answered")
            for x in r["body"]["breakpoints"]:
                check(x["source"]["path"] == path, "a breakpoint is answered with another path")
    sy.ok(done, "configurationDone")
    # The stops that follow are those of the last configuration.
    expected: list[tuple[str, str]] = []
    for tk in (a, b, c):
        if tk._ds._line_number in lines:
            expected.append((tk.name, "breakpoint"))
        if tk is b and "on_error" in filters:
            expected.append((tk.name, "exception"))
    if kind != "running":
        sy.s.frozen = True
    for i, (name, why) in enumerate(expected):
        stops = sy.events("stopped")
        check(len(stops) == i + 1, f"the playbook does not stop for the {why} of task {name}: " + sy.s.stuck())
        body = stops[i]["body"]
        check(body["reason"] == why, f"the playbook stops for another reason: {body['reason']}")
        ran = ["a", "b", "c"].index(name) + (why == "exception")
        check([n for _h, n in sy.executed] == ["a", "b", "c"][:ran], f"the playbook stops elsewhere: {sy.executed}")
        frames = sy.ok_turn("stackTrace", threadId=body["threadId"])["body"]["stackFrames"]
        check(frames[0]["source"]["path"] == path, "a frame is shown with another path")
        sy.ok_turn("continue", threadId=body["threadId"])
    check(len(sy.events("stopped")) == len(expected), "the playbook stops where nothing is set")
    check([n for _h, n in sy.executed] == ["a", "b", "c"], f"the playbook does not run its tasks: {sy.executed}")
    check(len(sy.events("initialized")) == 1, "the client is told twice that it can configure")
    sy.stdin.eof = True
    sy.check_ended()
    sy.check_stream()
    observe(kind, mapped, expected)


CAPABILITIES = {
    "supportsConfigurationDoneRequest",
    "supportsConditionalBreakpoints",
    "supportsSetVariable",
    "supportsTerminateRequest",
    "supportTerminateDebuggee",
    "supportsClipboardContext",
}
KINDS = {"a": "failed", "b": "unreachable", "c": "skipped"}


@harness(
    "C04",
    quick={"sets": 2},
    thorough={"sets": 3},
    expect=["announced", "defaults", "none", "all"],
    bounds="every subset of the exception filters that are announced, and the ones announced as default, set up to `sets` times before the playbook runs; tasks that fail, are unreachable, skipped or succeed",
    stubs=STUBS,
)
def announced() -> None:
    sy = System(0, ())
    h1 = Host("h1")
    tasks = [sy.task(n) for n in "abcd"]
    sy.results = {n: {k: True} for n, k in KINDS.items()}
    sy.start_playbook([[(h1, tk, {}) for tk in tasks]])
    sy.turn()
    sy.start_adapter()
    body = sy.ok_turn("initialize", adapterID="x")["body"]
    got = {k for k, v in body.items() if v is True}
    check(got == CAPABILITIES, f"capabilities are announced that are not there, or the other way round: {got ^ CAPABILITIES}")
    offered = body["exceptionBreakpointFilters"]
    check(len(offered) == 3, "another number of filters is announced")
    kind: dict[str, str] = {}
    for f in offered:
        text = (f["label"] + " " + f.get("description", "")).lower()
        kind[f["filter"]] = "unreachable" if "unreachable" in text else "skipped" if "skipped" in text else "failed"
        check(bool(f.get("default")) == (kind[f["filter"]] != "skipped"), "another filter is on by default")
    check(set(kind.values()) == set(KINDS.values()), "not every kind of result has a filter")
    reach("announced")
    sy.ok_turn("attach", **sy.target())
    on: list[str] = []
    for i in range(param("sets")):
        if choose(f"default{i}", 2):
            reach("defaults")
            on = [f["filter"] for f in offered if f.get("default")]
        else:
            on = [f["filter"] for f in offered if choose(f"{f['filter']}{i}", 2)]
            reach("none" if not on else "all" if len(on) == 3 else "some")
        sy.ok_turn("setExceptionBreakpoints", filters=on)
    sy.ok_turn("configurationDone")
    want = [n for n, k in KINDS.items() if k in [kind[f] for f in on]]
    for i, n in enumerate(want):
        stops = sy.events("stopped")
        check(len(stops) == i + 1, "a filter that is on does not stop the playbook")
        check(stops[i]["body"]["reason"] == "exception", "the playbook stops for another reason")
        check(sy.executed[-1] == ("h1", n), f"the playbook stops elsewhere: {sy.executed}")
        sy.ok_turn("continue", threadId=stops[i]["body"]["threadId"])
    check(len(sy.events("stopped")) == len(want), "a filter that is off stops the playbook")
    check([n for _h, n in sy.executed] == list("abcd"), f"the playbook does not run its tasks: {sy.executed}")
    sy.stdin.eof = True
    sy.check_ended()
    sy.check_stream()
    observe(len(want))
