"""However a playbook ends, its session ends with it."""

from __future__ import annotations

import os
import typing as t

from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .c07 import script
from .strat import PATH
from .system import STUBS, System

LINES = ("/_debuggee.py", "/_debug_adapter.py", "/_mp_queue.py")


@harness(
    "C08",
    quick={"delays": 0},
    thorough={"delays": 1},
    expect=["launch", "attach", "nobody", "waiting", "running", "stopped", "between", "over", "interrupt", "error", "killed", "none", "stays", "leaves"],
    bounds="a launched playbook, one the client is attached to and one nobody is attached to, which ends by itself, is interrupted, fails with an exception or is killed, while it waits for the configuration, runs, is stopped at a breakpoint, is between plays or over; the client then disconnects, or goes; every schedule with up to `delays` departures from run-until-blocked at any statement of _debuggee.py, _debug_adapter.py and _mp_queue.py",
    stubs=STUBS + "; at the end of the playbook process the interpreter joins its threads and runs its exit handlers, then its sockets are closed",
)
def ends() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a, b, c = sy.task("a"), sy.task("b"), sy.task("c")
    plays = [[(h1, a, {}), (h1, b, {})], [(h1, c, {})]]
    who = choose("who", ["launch", "attach", "nobody"])
    why = choose("why", ["none", "interrupt", "error", "killed"])
    places = ["waiting", "running", "stopped", "between", "over"]
    if who == "nobody":
        places.remove("stopped")
    if why == "error":
        places = ["running"]
    elif why == "none":
        places = ["over"]
    elif who == "nobody":
        places.remove("over")
    place = choose("place", places)
    reach(who)
    reach(why)
    reach(place)
    with sy.calm():
        if who == "launch":
            sy.start_adapter()
            sy.ok_turn("initialize", adapterID="x")
            seq = sy.send("launch", playbook="pb.yml")
            sy.turn()
            addr, _ = script(sy)
            sy.start_playbook(plays, mode="connect", debug_addr=addr)
            sy.respond([m for m in sy.msgs if m["type"] == "request"][0])
            sy.turn()
            sy.ok(seq, "launch")
            check(len(sy.events("initialized")) == 1, "launching does not lead to one initialized event: " + sy.s.stuck())
        else:
            sy.start_playbook(plays, no_wait_for_config_done=who == "nobody" and place != "waiting")
            if who == "nobody" and place != "waiting":
                sy.s.hold("playbook", {"running": "task", "between": "play"}.get(place, "stats"))
            sy.turn()
            if who == "attach":
                sy.start_adapter()
                sy.attach()
        if place == "stopped":
            sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": b._ds._line_number}])
        elif place == "running" and who != "nobody":
            sy.s.hold("playbook", "task")
        elif place == "between" and who != "nobody":
            sy.s.hold("playbook", "play")
        if place != "waiting" and who != "nobody":
            if why == "error" and choose("first", 2):
                sy.breaks = ("a",)
            elif why == "error":
                sy.breaks = ("b",)
            sy.ok_turn("configurationDone")
        elif why == "error":
            sy.breaks = ("b",)
    ran = len(sy.executed)
    if why == "interrupt" and place != "over":
        sy.s.interrupt("playbook", KeyboardInterrupt())
    elif why == "killed" and place != "over":
        sy.kill()
    sy.s.unhold("playbook")
    sy.turn()
    check(sy.playbook_state.done or why == "killed", "the playbook does not end: " + sy.s.stuck())
    if why in ("interrupt", "killed") and place != "over":
        check(len(sy.executed) == ran, "an interrupted playbook goes on")
    elif why != "error":
        check(len(sy.executed) == 3, f"not every task has run: {sy.executed}")
    if who != "nobody":
        check(len(sy.events("terminated")) == 1, "the client is not told that the playbook has ended: " + sy.s.stuck())
        if choose("then", ["stays", "leaves"]) == "stays":
            reach("stays")
            late = sy.send("threads")
            sy.turn()
            check(len(sy.responses(late)) == 1, "a request after the end of the playbook is not answered: " + sy.s.stuck())
            end = sy.send("disconnect")
            sy.turn()
            sy.ok(end, "disconnect")
        else:
            reach("leaves")
            sy.stdin.eof = True
    if why == "killed" and place != "over":
        sy.turn()
        check(sy.adapter_state.done or who == "nobody", "the debug adapter does not end: " + sy.s.stuck())
    else:
        sy.check_ended(adapter_too=who != "nobody")
    check(sy.adapter_state.exc is None, f"the debug adapter fails: {sy.adapter_state.exc!r}")
    sy.check_stream()
    if who != "nobody":
        check(len(sy.events("terminated")) == 1, "the end of the session is not reported once")
        started = [e["body"]["threadId"] for e in sy.events("thread") if e["body"]["reason"] == "started"]
        exited = [e["body"]["threadId"] for e in sy.events("thread") if e["body"]["reason"] == "exited"]
        check(why == "killed" or started == exited, f"threads are not reported as exited: {started} {exited}")
        kinds = [m.get("event", m["type"]) for m in sy.msgs]
        check(not [k for k in kinds[kinds.index("terminated") :] if k in ("thread", "stopped", "output", "breakpoint", "continued")], "an event follows the end of the session")
    observe(who, why, place, sy.executed)
