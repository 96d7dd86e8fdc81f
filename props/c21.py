"""A playbook never hangs because of the debugger."""

from __future__ import annotations

import sx
from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .strat import PATH
from .system import STUBS, System

LINES = ("/_debuggee.py", "/_debug_adapter.py", "/strategy/debug.py")


@harness(
    "C21",
    quick={"delays": 0},
    thorough={"delays": 1},
    expect=["attached", "asked", "configured", "stopped", "over", "disconnect", "terminate", "eof", "lost"],
    bounds="a session with two plays ended by disconnect, terminate, the end of the client or the loss of the connection while waiting for the configuration (also after a request that needs a play), at any moment of the run, stopped at a breakpoint or at an exception; a later task fails with the error filter on; every schedule with up to `delays` departures from run-until-blocked at any statement of _debuggee.py, _debug_adapter.py and the strategy",
    stubs=STUBS,
)
def session_end() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a, b, c = sy.task("a"), sy.task("b"), sy.task("c")
    sy.results = {"b": {"failed": True}, "c": {"failed": True}}
    place = choose("place", ["attached", "asked", "configured", "stopped", "failed", "over"])
    how = choose("how", ["disconnect", "terminate", "eof", "lost"])
    with sy.calm():
        sy.start_playbook([[(h1, a, {}), (h1, b, {})], [(h1, c, {})]])
        sy.turn()
        sy.start_adapter()
        sy.attach()
        if place in ("stopped", "failed", "configured"):
            sy.ok_turn("setExceptionBreakpoints", filters=["on_error"])
            if place == "stopped":
                sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": b._ds._line_number}])
        if place == "asked":
            # A request for a play before there can be one.
            early = sy.send("threads")
            sy.turn()
            if choose("then", 2):
                sy.ok_turn("configurationDone")
                check(len(sy.executed) == 3, "the playbook does not run once it is configured")
        elif place == "configured":
            sy.send("configurationDone")
        elif place != "attached":
            sy.ok_turn("configurationDone")
            check(len(sy.events("stopped")) == (0 if place == "over" else 1), "a breakpoint does not stop the playbook")
    reach(place)
    reach(how)
    end = None
    if how == "disconnect":
        end = sy.send("disconnect", terminateDebuggee=choose("kill", [False, True]))
    elif how == "terminate":
        sy.send("terminate")
        end = sy.send("disconnect") if choose("both", 2) else None
    elif how == "lost":
        for x in sy.net.sockets:
            if x.peer is not None and not x.closed:
                x.reset = x.eof = x.gone = True
    if end is None:
        sy.stdin.eof = True
    sy.turn()
    sy.check_ended()
    sy.check_stream()
    check(len(sy.events("terminated")) == 1, "the end of the session is not reported")
    if end is not None:
        check(len(sy.responses(end)) == 1, "disconnect is not answered")
    observe(place, how, sy.executed)


@harness(
    "C21",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["connect", "listen", "no_wait", "refused"],
    bounds="a playbook whose debug adapter cannot be connected to (connect mode) or that nobody attaches to (listen mode, not waiting for it), two plays; every schedule with up to `delays` departures from run-until-blocked at any statement of _debuggee.py, _debug_adapter.py and the strategy",
    stubs=STUBS,
)
def nobody_there() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a, b = sy.task("a"), sy.task("b")
    mode = choose("mode", ["connect", "listen"])
    reach(mode)
    addr = "uds://"
    wait = False
    if mode == "connect":
        addr = choose("addr", ["uds:///nowhere/sock", "tcp://127.0.0.1:9"])
        wait = choose("wait", [False, True])
        reach("refused")
    if not wait:
        reach("no_wait")
    sy.start_playbook(
        [[(h1, a, {})], [(h1, b, {})]], mode=mode, debug_addr=addr, no_wait_for_config_done=not wait
    )
    sy.check_ended(adapter_too=False)
    check(sy.executed == [("h1", "a"), ("h1", "b")], f"not every task has run: {sy.executed}")
    observe(mode, wait, addr)
