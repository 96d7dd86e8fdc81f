"""Stepping through nested includes."""

from __future__ import annotations

import sx
from sx import check, choose, flag, harness, integer, observe, param, reach

import ansibug.dap as dap

from .dbg import req
from .strat import PATH, ROLE, World

COMMANDS = ["continue", "next", "in", "out"]


INCLUDES = [
    ("ansible.builtin.include_tasks", "include_tasks"),
    ("include_role", "ansible.builtin.include_role", "ansible.legacy.include_tasks", "include_role"),
]


class Walk:
    """A run through a tree of includes that the solver picks."""

    def __init__(self, w: World, wraps: str, kinds: int, includes: tuple = ("ansible.builtin.include_tasks",)) -> None:
        self.w = w
        self.stack: list = []  # (include task, block to put children in)
        self.wraps = wraps
        self.kinds = kinds
        self.imports = ["ansible.builtin.import_tasks", "import_role"]
        self.includes = includes
        self.n = 0

    def next(self, maxdepth: int = 9) -> tuple:
        """The next task to run and the includes it is inside, innermost first."""
        i = self.n
        self.n += 1
        keep = choose(f"keep{i}", list(range(len(self.stack), -1, -1)))
        del self.stack[keep:]
        ancestors = [inc for inc, _ in reversed(self.stack)]
        block = self.stack[-1][1] if self.stack else self.w.root
        wrap = self.wraps[i % len(self.wraps)]
        if wrap == "i":  # inside a static import, which is part of where it stands
            block = self.w.block(self.w.task(block, name="import", action=self.imports[i % len(self.imports)], line=1))
        else:
            for _ in range(int(wrap)):
                block = self.w.block(block)
        # 0 task, 1 include, 2 include with apply, 3 include_role
        kind = choose(f"kind{i}", self.kinds if len(self.stack) < maxdepth else 1)
        include = self.includes[i % len(self.includes)]
        action = ["ping", include, "include_tasks", "ansible.builtin.include_role"][kind]
        task = self.w.task(block, name=f"task {i // 3}", action=action, line=2 + 2 * i)
        if any("role" in a.action for a in ancestors):
            task._role = ROLE
        if kind:
            b = self.w.block(task)
            if kind == 2:
                b = self.w.block(b)
            self.stack.append((task, b))
            reach("include")
        return task, ancestors, kind


@harness(
    "C14",
    quick={"tasks": 4, "wraps": ["0", "1i"]},
    thorough={"tasks": 5, "wraps": ["0", "10", "0i"]},
    expect=["include", "stop:over", "stop:in", "stop:out", "stop:bp", "no-stop", "out-of-nested", "end-out"],
    bounds="every run of 2..tasks tasks through includes (tasks, or roles and tasks) nested up to tasks-1 deep, inside explicit blocks and static imports after a few patterns, one optional further breakpoint; every command (continue, next, stepIn, stepOut) at every stop",
    stubs="the strategy's condition variable hands control to the modelled client; roles answer with no blocks",
)
def stepping() -> None:
    n = param("tasks")
    state: dict = {"stop": None}

    def client() -> None:
        ev = w.stop()
        check(state["stop"] is not None, "stops where the chosen step does not lead")
        why, tid, i = state["stop"]
        check(ev.thread_id == w.tid(host), "the stop names another thread")
        check(ev.reason in why, "the stop gives the wrong reason")
        if ev.reason == dap.StoppedReason.BREAKPOINT:
            check(list(ev.hit_breakpoint_ids) == [ids[2 + 2 * i]], "the stop names other breakpoints")
        else:
            check(not ev.hit_breakpoint_ids, "a step names breakpoints")
        state["stopped"] = True
        cmd = state["cmd"] = choose(f"cmd{i}", COMMANDS)
        tid = ev.thread_id
        if cmd == "continue":
            w.send(dap.ContinueRequest, thread_id=tid)
        elif cmd == "next":
            w.send(dap.NextRequest, thread_id=tid)
        elif cmd == "in":
            w.send(dap.StepInRequest, thread_id=tid)
        else:
            w.send(dap.StepOutRequest, thread_id=tid)

    w = World(client)
    host = w.host("h1")
    walk = Walk(w, choose("wraps", param("wraps")), 2, choose("includes", INCLUDES))
    bp = choose("bp", n)  # a second breakpoint at task bp, none if 0
    lines = sorted({2, 2 + 2 * bp})
    for i in range(n):
        w.debugger.register_path_breakpoint(PATH, 2 + 2 * i, 1)
    resp = w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=x) for x in lines],
    )
    ids = {x: b.id for x, b in zip(lines, resp.breakpoints)}

    mode = "run"
    at: tuple = ()  # (task, scope) of the last stop
    for i in range(n):
        task, ancestors, kind = walk.next()
        scope = ancestors[0] if ancestors else None
        why: list = []
        if mode == "over" and scope is at[1]:
            why.append(dap.StoppedReason.STEP)
            reach("stop:over")
        if mode == "in":
            why.append(dap.StoppedReason.STEP)
            reach("stop:in")
        if mode == "out":
            if at[1] is None:
                reach("end-out")
            elif at[1] not in ancestors:
                why.append(dap.StoppedReason.STEP)
                reach("stop:out")
            elif at[1] is not scope:
                reach("out-of-nested")
        if 2 + 2 * i in ids and mode != "out":
            why.append(dap.StoppedReason.BREAKPOINT)
            reach("stop:bp")
        state.update(stop=(why, None, i) if why else None, stopped=False, cmd=None)
        w.start(host, task)
        if why:
            check(state["stopped"], "does not stop where the chosen step leads")
            at = (task, scope)
            cmd = state["cmd"]
            mode = {"continue": "run", "next": "over", "out": "out"}.get(cmd, "in" if kind else "over")
            if mode == "run" and bp <= i:
                reach("ran")
                break
        else:
            reach("no-stop")
        state["stop"] = None
        w.end(host, task)
    observe(mode)


OTHERS = ["threads", "stack", "continue", "next", "in", "out", "breakpoints", "exceptions", "evaluate"]


@harness(
    "C14",
    quick={"others": 2},
    thorough={"others": 3},
    expect=["resumed", "other", "second-stop"],
    bounds="two hosts stopped one after the other at the same task, 0..others requests (0..1 at the second) that do not resume the stopped thread before its resume (continue one or all, next, stepIn, stepOut)",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def stays_stopped() -> None:
    cur: dict = {}

    def client() -> None:
        ev = w.stop()
        tid = cur["tid"]
        check(ev.thread_id == tid, "the stop names another thread")
        check(ev.reason == dap.StoppedReason.BREAKPOINT, "the stop gives the wrong reason")
        k = cur["turn"]
        cur["turn"] += 1
        if k < cur["others"]:
            reach("other")
            other = [x for x in tids if x != tid][0]
            what = choose(f"other{len(w.sent)}", OTHERS)
            if what in ("next", "in", "out"):
                cur["moved"] = True  # the other thread has a step of its own pending
            if what == "threads":
                w.send(dap.ThreadsRequest)
            elif what == "stack":
                check(w.frames(tid)[0].name == "task 0", "the stopped thread is not at its task")
            elif what == "continue":
                w.send(dap.ContinueRequest, thread_id=other, single_thread=True)
            elif what == "next":
                w.send(dap.NextRequest, thread_id=other)
            elif what == "in":
                w.send(dap.StepInRequest, thread_id=other)
            elif what == "out":
                w.send(dap.StepOutRequest, thread_id=other)
            elif what == "breakpoints":
                w.send(dap.SetBreakpointsRequest, source=dap.Source(path="/play/other.yml"), breakpoints=[])
            elif what == "exceptions":
                w.send(dap.SetExceptionBreakpointsRequest, filters=["on_error"])
            else:
                w.send(dap.EvaluateRequest, expression="1", context="repl", frame_id=w.frames(tid)[0].id)
            return
        check(not cur["resumed"], "stays stopped although the client resumed it")
        cur["resumed"] = True
        cmd = choose(f"resume{tid}", ["one", "all", "next", "in", "out"])
        if cmd == "one":
            resp = w.send(dap.ContinueRequest, thread_id=tid, single_thread=True)
            check(not resp.all_threads_continued, "says that every thread was continued")
        elif cmd == "all":
            resp = w.send(dap.ContinueRequest, thread_id=tid, single_thread=False)
            check(resp.all_threads_continued, "says that only one thread was continued")
        elif cmd == "next":
            w.send(dap.NextRequest, thread_id=tid)
        elif cmd == "in":
            w.send(dap.StepInRequest, thread_id=tid)
        else:
            w.send(dap.StepOutRequest, thread_id=tid)

    w = World(client)
    hosts = [w.host("h1"), w.host("h2")]
    warm = w.task(w.root, name="warm", line=8)
    for h in hosts:
        w.start(h, warm)
        w.end(h, warm)
    tids = [w.tid(h) for h in hosts]
    check(len(set(tids)) == 2, "two hosts share a thread")
    task = w.task(w.root, name="task 0", line=2)
    w.debugger.register_path_breakpoint(PATH, 2, 1)
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=2)])
    for i, h in enumerate(hosts):
        cur.update(tid=tids[i], turn=0, resumed=False)
        cur["others"] = choose(f"others{i}", (1 if i else param("others")) + 1)
        if cur.get("moved") and i:
            break
        w.start(h, task)
        check(cur["resumed"], "goes on although its thread was not resumed")
        check(cur["turn"] == cur["others"] + 1, "goes on although its thread was not resumed")
        reach("second-stop" if i else "resumed")
        w.end(h, task)
        observe(cur["turn"])


@harness(
    "C14",
    quick={},
    thorough={},
    expect=["kept", "dropped", "resumed"],
    bounds="two hosts; the first is resumed with a step (next, stepIn, stepOut) from a task or include, the second stops and is resumed with continue (one or all) or a step; then a task runs on the first host that is in the same scope or outside it",
    stubs="the strategy's condition variable hands control to the modelled client; roles answer with no blocks",
)
def two_steps() -> None:
    """What is asked for one thread applies to that thread, and continue all to every thread."""
    cur: dict = {}

    def client() -> None:
        ev = w.stop()
        check(ev.thread_id == cur["tid"], "the stop names another thread")
        cur["stopped"] = ev.reason
        cmd = cur["cmd"]
        if cmd in ("one", "all"):
            w.send(dap.ContinueRequest, thread_id=cur["tid"], single_thread=cmd == "one")
        else:
            kind = {"next": dap.NextRequest, "in": dap.StepInRequest, "out": dap.StepOutRequest}[cmd]
            w.send(kind, thread_id=cur["tid"])

    w = World(client)
    hosts = [w.host("h1"), w.host("h2")]
    depth = choose("depth", [0, 1])
    w.debugger.register_path_breakpoint(PATH, 4, 1)
    w.debugger.register_path_breakpoint(PATH, 6, 1)
    w.debugger.register_path_breakpoint(PATH, 8, 1)
    block = w.root
    if depth:
        inc = w.task(w.root, name="include", action="include_tasks", line=2)
        for h in hosts:
            w.start(h, inc)
            w.end(h, inc)
        block = w.block(inc)
    warm = w.task(block, name="warm", line=3)
    for h in hosts:
        w.start(h, warm)
        w.end(h, warm)
    tids = [w.tid(h) for h in hosts]
    is_inc = choose("kind", [False, True])
    task = w.task(block, name="task", line=4, action="include_tasks" if is_inc else "ping")
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=4)])

    cmds = []
    for i, h in enumerate(hosts):
        cur.update(tid=tids[i], stopped=None, cmd=choose(f"cmd{i}", ["next", "in", "out"] if not i else ["one", "all", "next", "in", "out"]))
        cmds.append(cur["cmd"])
        w.start(h, task)
        check(cur["stopped"] == dap.StoppedReason.BREAKPOINT, "does not stop at its breakpoint")
        w.end(h, task)

    # where each thread stops next
    inside = w.task(w.block(task), name="inside", line=6) if is_inc else None
    same = w.task(block, name="same", line=8)
    outside = w.task(w.root, name="outside", line=8)
    where = choose("where", ["same", "outside"] + (["inside"] if is_inc else []))
    nxt = {"same": same, "outside": outside, "inside": inside}[where]
    order = choose("order", [(0, 1), (1, 0)])
    for i in order:
        cmd = cmds[i]
        if cmd == "in" and not is_inc:
            cmd = "next"
        if i == 0 and cmds[1] == "all":
            cmd = "all"
        if cmd == "next":
            want = where == "same" or where == "outside" and not depth
        elif cmd == "in":
            want = True
        elif cmd == "out":
            want = bool(depth) and where == "outside"
        else:
            want = False
        cur.update(tid=tids[i], stopped=None, cmd="one")
        w.start(hosts[i], nxt)
        if cur["stopped"]:
            check(cur["stopped"] == dap.StoppedReason.STEP, "the stop gives the wrong reason")
            check(want, "stops where the chosen step does not lead")
            reach("kept" if i == 0 else "resumed")
        else:
            check(not want, "does not stop where the chosen step leads")
            if i == 0 and cmds[1] == "all":
                reach("dropped")
        w.end(hosts[i], nxt)
    observe(where)
