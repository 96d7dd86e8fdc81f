"""Detaching lets the playbook run to its end, terminating stops it."""

from __future__ import annotations

from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .strat import PATH
from .system import STUBS, System

LINES = ("/_debuggee.py", "/strategy/debug.py")


@harness(
    "C20",
    quick={"delays": 1, "moments": ["configured", "stopped", "resumed", "stepping"], "cmds": ["next"]},
    thorough={"delays": 1, "moments": ["attached", "configured", "stopped", "failed", "resumed", "stepping"], "cmds": ["next", "stepIn", "stepOut", "continue"]},
    expect=["configured", "stopped", "resumed", "stepping", "detach", "terminate", "kill", "gone", "both"],
    bounds="two plays on two hosts, breakpoints on tasks of both plays, tasks that fail with the error filter on; ended by disconnect, disconnect with terminateDebuggee, terminate (and a disconnect right after it) or the end of the client, before the first play, while running, stopped, just resumed or while the task runs that a step resumed; every schedule with up to `delays` departures from run-until-blocked at any statement of _debuggee.py and the strategy",
    stubs=STUBS,
)
def ended() -> None:
    sy = System(param("delays"), LINES)
    h1, h2 = Host("h1"), Host("h2")
    a, b, c, d = (sy.task(n) for n in "abcd")
    sy.results = {"b": {"failed": True}, "c": {"failed": True}}
    tasks = [("h1", "a"), ("h1", "b"), ("h1", "d"), ("h2", "c")]
    moment = choose("moment", param("moments"))
    how = choose("how", ["detach", "terminate", "kill", "gone", "both"])
    reach(moment)
    reach(how)
    with sy.calm():
        sy.start_playbook([[(h1, a, {}), (h1, b, {}), (h1, d, {})], [(h2, c, {})]])
        sy.turn()
        sy.start_adapter()
        sy.attach()
        if moment == "failed":
            sy.ok_turn("setExceptionBreakpoints", filters=["on_error"])
        else:
            sy.ok_turn(
                "setBreakpoints",
                source={"path": PATH},
                breakpoints=[{"line": x._ds._line_number} for x in (b, c)],
            )
        if moment == "configured":
            sy.send("configurationDone")
        elif moment != "attached":
            sy.ok_turn("configurationDone")
            stop = sy.events("stopped")
            check(len(stop) == 1, "a breakpoint or failure does not stop the playbook")
            ran_before = len(sy.executed)
            if moment == "resumed":
                cmd = choose("cmd", param("cmds"))
                sy.send(cmd, threadId=stop[0]["body"]["threadId"])
            elif moment == "stepping":
                cmd = choose("cmd", ["next", "stepIn", "stepOut"])
                sy.s.hold("playbook", "task")
                sy.ok_turn(cmd, threadId=stop[0]["body"]["threadId"])
                check(len(sy.executed) == ran_before + 1, "a step does not resume the playbook")
    stops = len(sy.events("stopped"))
    ran = len(sy.executed)
    if how == "terminate":
        sy.send("terminate")
    elif how == "both":
        sy.send("terminate")
        sy.send("disconnect", terminateDebuggee=False)
    elif how == "gone":
        sy.stdin.eof = True
    else:
        sy.send("disconnect", terminateDebuggee=how == "kill")
    sy.turn()
    if moment == "stepping":
        sy.s.unhold("playbook")
        sy.turn()
    sy.stdin.eof = True
    sy.check_ended()
    if how in ("terminate", "kill", "both"):
        check(sy.executed == tasks[: len(sy.executed)], f"tasks are run out of order: {sy.executed}")
        if moment in ("attached", "stopped", "failed", "stepping"):
            check(len(sy.executed) == ran, f"a terminated playbook goes on: {sy.executed}")
    else:
        check(sy.executed == tasks, f"a playbook without its client does not run to its end: {sy.executed}")
    if moment in ("attached", "stopped", "failed", "stepping"):
        check(len(sy.events("stopped")) == stops, "the playbook stops although its client has gone")
    observe(moment, how, sy.executed)
