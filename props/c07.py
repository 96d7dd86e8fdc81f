"""Every request of the client is answered."""

from __future__ import annotations

import base64
import os
import re
import sys
import typing as t

from sx import check, choose, harness, observe, param, reach
from ansible.inventory.host import Host

from .c09 import command, sh_words
from .net import FakeSocket
from .strat import PATH
from .system import STUBS, System

import socket

LINES = ("/_debug_adapter.py",)


def script(sy: System) -> tuple[str, str]:
    """What the launch script is for: the address to connect to and where to report the end."""
    run = [m for m in sy.msgs if m["type"] == "request" and m["command"] == "runInTerminal"]
    check(len(run) == 1, "the client is not asked to start the playbook: " + sy.s.stuck())
    path = run[0]["arguments"]["args"][0]
    with open(path) as f:
        text = f.read()
    os.unlink(path)
    words = sh_words(command(text, sys.executable))
    sn = re.search(r'SN="([^"]*)"', text)
    assert sn is not None
    return words[words.index("--addr") + 1], base64.b64decode(sn.group(1)).decode()


def early(path: str) -> None:
    """The launched process has ended."""
    try:
        s = FakeSocket(socket.AF_UNIX)
        s.connect(path)
        s.close()
    except OSError:
        pass


FAILING = {
    "unsupported": ("threads", {}),
    "attach-nothing": ("attach", {}),
    "attach-missing": ("attach", {"processId": 999999}),
    "attach-refused": ("attach", {"address": "uds:///nowhere/sock"}),
    "attach-bad": ("attach", {"address": "nope"}),
    "launch-nothing": ("launch", {}),
    "launch-console": ("launch", {"playbook": "p", "console": "x"}),
}


@harness(
    "C07",
    quick={"delays": 0},
    thorough={"delays": 1},
    expect=["failing", "pending", "early", "timeout", "not run", "launched", "none", "disconnect", "eof", "pipelined"],
    bounds="sessions in which there is no playbook: nothing is attached or launched, 7 requests that fail, launches that the client has not started, cannot start, that end before they connect or do not connect in time; followed by a request, then disconnect (at once or later) or the end of the client; every schedule with up to `delays` departures from run-until-blocked at any statement of _debug_adapter.py",
    stubs=STUBS,
)
def without_playbook() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a = sy.task("a")
    step = choose("step", ["none", "pending", "early", "timeout", "not run", "launched", *FAILING])
    how = choose("how", ["disconnect", "eof", "pipelined"])
    reach("failing" if step in FAILING else step)
    reach(how)
    fails = step in FAILING or step in ("timeout", "not run")
    late = None
    with sy.calm():
        sy.start_adapter()
        sy.ok_turn("initialize", adapterID="x")
        seq = None
        if step in FAILING:
            cmd, args = FAILING[step]
            seq = sy.send(cmd, **args)
        elif step != "none":
            seq = sy.send("launch", playbook="pb.yml", connectTimeout=2)
            sy.turn()
            check(not sy.responses(seq), "a launch is answered before the playbook has connected")
            addr, end = script(sy)
            run = [m for m in sy.msgs if m["type"] == "request"][0]
        if step == "early":
            sy.s.spawn(lambda: early(end), "terminal")
            sy.respond(run)
        elif step == "launched":
            sy.start_playbook([[(h1, a, {})]], mode="connect", debug_addr=addr)
            sy.respond(run)
        elif step == "timeout":
            sy.respond(run)
        elif step == "not run":
            sy.send_raw({"seq": next(sy.seq), "type": "response", "command": "runInTerminal", "request_seq": run["seq"], "success": False, "message": "no", "body": {}})
    if how == "pipelined":
        # Sent without waiting for an answer.
        late = sy.send("disconnect")
    sy.turn(patient=True)
    if step == "launched" and how != "pipelined":
        sy.ok(seq, "launch")
    if step in FAILING or step in ("timeout", "not run", "early"):
        assert seq is not None
        r = sy.responses(seq)
        check(len(r) == 1 and not r[0]["success"], "a request that fails is not answered with the failure: " + sy.s.stuck())
        check(bool(r[0].get("message") or r[0].get("body")), "a failure is not explained")
    if how == "disconnect" and not sy.adapter_state.done:
        late = sy.send("disconnect")
        sy.turn()
    if how == "eof":
        sy.stdin.eof = True
    if step == "launched":
        sy.check_ended()
    else:
        sy.turn(patient=True)
        check(sy.adapter_state.done, "the debug adapter does not end: " + sy.s.stuck())
        check(not os.listdir(sy.net.dir), f"files are left behind: {os.listdir(sy.net.dir)}")
    check((sy.adapter_state.exc is not None) <= fails, f"the debug adapter fails: {sy.adapter_state.exc!r}")
    sy.check_stream()
    for r2 in sy.requests:
        if r2["seq"] == late and fails:
            continue  # the adapter has ended before
        if r2["command"] == "launch" and step == "pending":
            continue  # the client ends the session itself
        check(len(sy.responses(r2["seq"])) == 1, f"{r2['command']} is answered {len(sy.responses(r2['seq']))} times")
        if r2["seq"] == late:
            check(sy.responses(late)[0]["success"], "disconnect fails")
    check(len(sy.events("terminated")) == 1, "the end of the session is not reported")
    observe(step, how, len(sy.msgs))


HOPELESS = {
    "scopes": [{"frameId": 99}],
    "stackTrace": [{"threadId": 99}, {"threadId": 1, "levels": -1}],
    "variables": [{"variablesReference": 99}],
    "setVariable": [
        {"variablesReference": 99, "name": "a", "value": "1"},
        {"variablesReference": "task", "name": "a", "value": "{{ nothing }}"},
        {"variablesReference": "task", "name": "a", "value": "{{ ("},
        {"variablesReference": "task", "name": "a", "value": "{{ lookup('file', '/nowhere') }}"},
        {"variablesReference": "task", "name": "a", "value": "{{ 1 / 0 }}"},
    ],
    "evaluate": [{"expression": "a", "frameId": 99, "context": "repl"}, {"expression": "a", "frameId": 99, "context": "hover"}, {"expression": "("}],
    "continue": [{"threadId": 99}],
    "next": [{"threadId": 99}],
    "stepIn": [{"threadId": 99}],
    "stepOut": [{"threadId": 99}],
    "setBreakpoints": [{"source": {}}, {"source": {"path": PATH}, "breakpoints": [{"line": -1}]}, {"source": {"path": PATH}, "breakpoints": [{"line": 10**9}]}],
    "setExceptionBreakpoints": [{"filters": ["x"]}, {"filters": []}],
    "initialize": [{"adapterID": "x"}],
    "attach": [{"processId": 1}],
    "launch": [{"playbook": "x"}],
    "cancel": [{"requestId": 1}],
}


def options(sy: System) -> int:
    """The reference of the options of the stopped task."""
    frame = sy.ok_turn("stackTrace", threadId=sy.events("stopped")[0]["body"]["threadId"])["body"]["stackFrames"][0]
    return sy.ok_turn("scopes", frameId=frame["id"])["body"]["scopes"][0]["variablesReference"]


@harness(
    "C07",
    quick={"delays": 0},
    thorough={"delays": 1},
    expect=["stopped", "running", "ending", "over", "error", "success", *HOPELESS],
    bounds="requests of every kind with arguments that lead nowhere (25 of them) while the playbook is stopped, runs, has run its last play or is over, each followed by a request that is fine; every schedule with up to `delays` departures from run-until-blocked at any statement of _debug_adapter.py",
    stubs=STUBS,
)
def hopeless() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a, b = sy.task("a"), sy.task("b")
    cmd = choose("command", list(HOPELESS))
    args = choose("arguments", HOPELESS[cmd])
    when = choose("when", ["stopped", "running", "ending", "over"])
    reach(cmd)
    reach(when)
    with sy.calm():
        sy.start_playbook([[(h1, a, {}), (h1, b, {})]], debug_addr=choose("address", ["uds://", "tcp://127.0.0.1:0"]))
        sy.turn()
        sy.start_adapter()
        sy.attach()
        if when == "stopped":
            sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": a._ds._line_number}])
        elif when in ("running", "ending"):
            sy.s.hold("playbook", "task" if when == "running" else "stats")
        sy.ok_turn("configurationDone")
        check(len(sy.events("stopped")) == (1 if when == "stopped" else 0), "a breakpoint does not stop the playbook")
        if args.get("variablesReference") == "task":
            args = {**args, "variablesReference": options(sy) if when == "stopped" else 1}
    seq = sy.send(cmd, **args)
    sy.turn()
    if when == "ending":
        # It may be meant for the next play.
        sy.s.unhold("playbook")
        sy.turn()
    check(len(sy.responses(seq)) == 1, f"{cmd} is answered {len(sy.responses(seq))} times: " + sy.s.stuck())
    r = sy.responses(seq)[0]
    check(r["command"] == cmd, "the answer is for another command")
    reach("success" if r["success"] else "error")
    check(r["success"] or bool(r.get("message") or r.get("body")), "a failure is not explained")
    if when in ("stopped", "running"):
        sy.ok_turn("threads")
        if when == "stopped":
            tid = sy.events("stopped")[0]["body"]["threadId"]
            sy.ok_turn("stackTrace", threadId=tid)
            if r["success"] and cmd in ("continue", "next", "stepIn", "stepOut"):
                pass
            else:
                check(len(sy.executed) == 0, "a request that leads nowhere resumes the playbook")
    sy.s.unhold("playbook")
    end = sy.send("disconnect")
    sy.turn()
    sy.ok(end, "disconnect")
    sy.check_ended()
    check(sy.executed == [("h1", "a"), ("h1", "b")], f"a playbook without its client does not run to its end: {sy.executed}")
    sy.check_stream()
    check(len(sy.events("terminated")) == 1, "the end of the session is not reported")
    observe(cmd, when, r["success"])


LAST = ["continue", "next", "stepIn", "stepOut", "terminate", "threads", "stackTrace", "setBreakpoints"]


@harness(
    "C07",
    quick={"delays": 1, "lines": ["/_debuggee.py"]},
    thorough={"delays": 2, "lines": ["/_debuggee.py", "/_debug_adapter.py"]},
    expect=["resumed", "ended", *LAST],
    bounds="a playbook that is stopped at its last task and ends, with each of 8 requests that resume it, end it or come while it ends; every schedule with up to `delays` departures from run-until-blocked at any statement of the named files",
    stubs=STUBS,
)
def last() -> None:
    sy = System(param("delays"), param("lines"))
    h1 = Host("h1")
    a = sy.task("a")
    cmd = choose("command", LAST)
    reach(cmd)
    with sy.calm():
        sy.start_playbook([[(h1, a, {})]])
        sy.turn()
        sy.start_adapter()
        sy.attach()
        sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": a._ds._line_number}])
        sy.ok_turn("configurationDone")
        check(len(sy.events("stopped")) == 1, "a breakpoint does not stop the playbook")
        tid = sy.events("stopped")[0]["body"]["threadId"]
    resumes = cmd in ("continue", "next", "stepIn", "stepOut")
    if resumes:
        seq = sy.send(cmd, threadId=tid)
        reach("resumed")
    elif cmd == "terminate":
        seq = sy.send(cmd)
    else:
        first = sy.send("continue", threadId=tid)
        args: dict = {"stackTrace": {"threadId": 1}, "setBreakpoints": {"source": {"path": PATH}, "breakpoints": []}}.get(cmd, {})
        seq = sy.send(cmd, **args)
    sy.turn()
    if not resumes and cmd != "terminate":
        sy.ok(first, "continue")
    r = sy.responses(seq)
    check(len(r) == 1, f"{cmd} is answered {len(r)} times: " + sy.s.stuck())
    check(r[0]["command"] == cmd, "the answer is for another command")
    if resumes or cmd == "terminate":
        check(r[0]["success"], f"{cmd} fails: {r[0].get('message')}")
    reach("ended")
    end = sy.send("disconnect")
    sy.turn()
    sy.ok(end, "disconnect")
    sy.check_ended()
    check(sy.executed == ([("h1", "a")] if cmd != "terminate" else []), f"the playbook does not end as asked: {sy.executed}")
    sy.check_stream()
    check(len(sy.events("terminated")) == 1, "the end of the session is not reported")
    observe(cmd, r[0]["success"])


@harness(
    "C07",
    quick={"delays": 1, "requests": 2},
    thorough={"delays": 2, "requests": 2},
    expect=["unix", "tcp", "answered", "lost", "ended first"],
    bounds="a playbook process that is killed before a request is sent, at any moment of the adapter noticing it, or while `requests` requests (of 3 kinds) are sent to it over a unix or a TCP socket; every schedule with up to `delays` departures from run-until-blocked at any statement of _debug_adapter.py",
    stubs=STUBS + "; a killed process closes its sockets, those with unread data are reset",
)
def killed() -> None:
    sy = System(param("delays"), LINES)
    h1 = Host("h1")
    a = sy.task("a")
    where = choose("address", ["uds://", "tcp://127.0.0.1:0"])
    reach("unix" if where == "uds://" else "tcp")
    with sy.calm():
        sy.start_playbook([[(h1, a, {})]], debug_addr=where)
        sy.turn()
        sy.start_adapter()
        sy.attach()
        sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": a._ds._line_number}])
        sy.ok_turn("configurationDone")
        check(len(sy.events("stopped")) == 1, "a breakpoint does not stop the playbook")
    seqs: list[int] = []
    dead: list[bool] = []

    def client() -> None:
        for i in range(param("requests")):
            seqs.append(sy.send(choose(f"command{i}", ["threads", "setExceptionBreakpoints"]), **({"filters": []})))

    def late_client() -> None:
        sy.s.wait(lambda: bool(dead), "the end of the playbook")
        seqs.append(sy.send("threads"))

    def killer() -> None:
        sy.kill()
        dead.append(True)

    if choose("first", ["client", "end"]) == "client":
        client()
    else:
        sy.s.spawn(late_client, "client")
        reach("ended first")
    sy.s.spawn(killer, "killer")
    sy.turn()
    for seq in seqs:
        r = sy.responses(seq)
        check(len(r) == 1, f"a request is answered {len(r)} times: " + sy.s.stuck())
        reach("answered" if r[0]["success"] else "lost")
    check(len(sy.events("terminated")) == 1, "the client is not told that the playbook has ended: " + sy.s.stuck())
    end = sy.send("disconnect")
    sy.turn()
    sy.ok(end, "disconnect")
    check(sy.adapter_state.done, "the debug adapter does not end: " + sy.s.stuck())
    check(sy.adapter_state.exc is None, f"the debug adapter fails: {sy.adapter_state.exc!r}")
    sy.check_stream()
    observe(where)
