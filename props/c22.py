"""What the client receives while several threads send to it."""

from __future__ import annotations

from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .strat import PATH
from .system import STUBS, System

LINES = ("/_debug_adapter.py", "/dap/_adapter.py")


@harness(
    "C22",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["attached", "threads"],
    bounds="attaching to a playbook that is already running, so that the answer and the events of its threads are sent at the same time; every schedule with up to `delays` departures from run-until-blocked at any statement of _debug_adapter.py and dap/_adapter.py",
    stubs=STUBS,
)
def attach_running() -> None:
    sy = System(param("delays"), LINES)
    h1, h2 = Host("h1"), Host("h2")
    a, b = sy.task("a"), sy.task("b")
    with sy.calm():
        sy.start_playbook([[(h1, a, {}), (h2, b, {})]], no_wait_for_config_done=True)
        sy.s.hold("playbook", "stats")
        sy.turn()
        sy.start_adapter()
        sy.ok_turn("initialize", adapterID="x")
        seq = sy.send("attach", **sy.target())
    sy.turn()
    sy.ok(seq, "attach")
    reach("attached")
    started = [e["body"]["threadId"] for e in sy.events("thread") if e["body"]["reason"] == "started"]
    exited = [e["body"]["threadId"] for e in sy.events("thread") if e["body"]["reason"] == "exited"]
    check(len(started) == 2 and exited == started, f"thread events are lost: {started} {exited}")
    reach("threads")
    end = sy.send("disconnect")
    sy.turn()
    sy.ok(end, "disconnect")
    sy.s.unhold("playbook")
    sy.check_ended()
    sy.check_stream()
    check(sy.msgs[-1]["event" if sy.msgs[-1]["type"] == "event" else "type"] == "terminated", "something is sent after the terminated event")
    observe(len(sy.msgs))


@harness(
    "C22",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["lost", "taken", "answered"],
    bounds="the connection to the playbook is lost while the client sends a request or while the playbook handles it; every schedule with up to `delays` departures from run-until-blocked at any statement of _debug_adapter.py and dap/_adapter.py",
    stubs=STUBS,
)
def connection_lost() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a = sy.task("a")
    with sy.calm():
        sy.start_playbook([[(h1, a, {})]])
        sy.turn()
        sy.start_adapter()
        sy.attach()
        when = choose("when", ["sent", "taken"])
        if when == "sent":
            seq = sy.send(*choose("request", [("configurationDone",), ("threads",)]))
        else:
            sy.s.hold("playbook", "play")
            sy.ok_turn("configurationDone")
            seq = sy.send("threads")
            sy.turn()
            check(not sy.responses(seq), "a request is answered although no play is running")
            reach("taken")
        for x in sy.net.sockets:
            if x.peer is not None and not x.closed:
                x.reset = x.eof = x.gone = True
    reach("lost")
    sy.turn()
    check(len(sy.responses(seq)) == 1, f"a request is answered {len(sy.responses(seq))} times")
    reach("answered")
    sy.s.unhold("playbook")
    end = sy.send("disconnect")
    sy.check_ended()
    sy.ok(end, "disconnect")
    sy.check_stream()
    check(len(sy.events("terminated")) == 1, "the end of the session is not reported")
    observe(len(sy.msgs))
