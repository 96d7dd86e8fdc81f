"""The threads a client knows are the hosts that are running."""

from __future__ import annotations

import typing as t

import sx
from sx import check, choose, harness, observe, param, reach

import ansibug.dap as dap
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as strategy
from ansible.executor.task_queue_manager import TaskQueueManager
from ansible.executor.task_result import TaskResult
from ansible.inventory.host import Host

from .strat import LOADER, PATH, ClientCondition, World, send_any

# As the linear strategy calls it: the plugin looks at the variables of its caller.
CALL: dict = {}
exec("def meta(strat, task, host, task_vars, it):\n    return strat._execute_meta(task, None, it, host)\n", CALL)

METAS = ["clear_host_errors", "noop", "clear_facts"]
OPS = ["h1", "h2", "both", "noop", "refresh", "play"]


class Run(World):
    """Plays run by the strategy plugin itself."""

    def __init__(self, client: t.Callable[[], None]) -> None:
        super().__init__(client)
        # This state is not used: the strategy makes one for each play.
        self.debugger._strategy = None
        self.play: t.Any = None
        base = strategy.StrategyModule.__mro__[1]
        world = self

        def results(this: t.Any, iterator: t.Any, *a: t.Any, **k: t.Any) -> list:
            got, world.pending = world.pending, []
            return got

        for name, f in (
            ("run", lambda this, it, pc: it(this) or TaskQueueManager.RUN_OK),
            ("_queue_task", lambda this, host, task, task_vars, pc: world.pending.append(TaskResult(host, task, dict(world.outcome), {}))),
            ("_process_pending_results", results),
            ("_execute_meta", lambda this, task, pc, it, host: world.on_meta(task)),
        ):
            old = base.__dict__.get(name)
            setattr(base, name, f)
            sx.cleanup(lambda n=name, o=old: setattr(base, n, o) if o is not None else delattr(base, n))
        self.pending: list = []
        self.outcome: dict = {}
        self.on_meta: t.Callable = lambda task: None
        self.strat = object.__new__(strategy.StrategyModule)
        self.strat._tqm = None
        self.strat._loader = LOADER
        self.strat._variable_manager = self.vm
        self.strat._warning_ctx = None


def new_host(name: str) -> Host:
    h = Host(name)
    h.address = "192.0.2." + name[-1:]
    return h


@harness(
    "C19",
    quick={"ops": 4},
    thorough={"ops": 6},
    expect=["h1", "h2", "both", "noop", "refresh", "play", "new-ids", "stale", "failed", "pass"],
    bounds="every run of 1..ops operations: a task on either or both of two hosts, a meta task, a refresh of the inventory, the next play; tasks with a breakpoint or that fail with the error filter on, or without a stop",
    stubs="the methods of Ansible's linear strategy that the plugin extends only record tasks and hand back their results; the strategy's condition variable hands control to the modelled client",
)
def threads() -> None:
    live: dict = {}  # id -> host name, by the events
    used: set = set()
    frames: set = set()
    gone: list = []
    hosts = {n: new_host(n) for n in ("h1", "h2")}
    cur: dict = {"running": None, "stops": 0}

    def follow() -> None:
        w.collect()
        for m in w.sent:
            if isinstance(m, dap.ThreadEvent):
                if m.reason == "started":
                    check(m.thread_id not in used and m.thread_id != 1, "a thread id is used twice")
                    check(cur["running"] is not None and cur["running"] not in live.values(), "a thread starts for a host that has one")
                    used.add(m.thread_id)
                    live[m.thread_id] = cur["running"]
                else:
                    check(m.reason == "exited", "an unknown thread event")
                    check(m.thread_id in live, "a thread exits that is not running")
                    gone.append((m.thread_id, live.pop(m.thread_id)))
        w.sent.clear()

    def look() -> None:
        follow()
        got = w.send(dap.ThreadsRequest).threads
        check(len({x.id for x in got}) == len(got), "a thread is shown twice")
        check({x.id: x.name for x in got} == {1: "main", **live}, "the threads shown are not those that have started and not exited")
        follow()

    def client() -> None:
        ev = w.stop()
        follow()
        check(ev.thread_id in live, "stops a thread that the client does not know")
        check(live[ev.thread_id] == cur["running"], "stops the thread of another host")
        cur["stops"] += 1
        look()
        stack = w.frames(ev.thread_id)
        check(len(stack) == 1, "the stack is not the task")
        if cur["new"]:
            check(stack[0].id not in frames, "a frame id is used twice")
            frames.add(stack[0].id)
        cur["new"] = False
        cur["refs"] = []
        for s in w.send(dap.ScopesRequest, frame_id=stack[0].id).scopes:
            check(s.variables_reference not in frames_refs, "a variable reference is used twice")
            frames_refs.add(s.variables_reference)
            cur["refs"].append(s.variables_reference)
        cur["last"] = (ev.thread_id, stack[0].id)
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)
        follow()

    def stale() -> None:
        """What has gone is not shown any more."""
        if gone and cur.get("last"):
            reach("stale")
            tid, fid = cur["last"]
            if tid not in live:
                check(not send_any(w, dap.StackTraceRequest, thread_id=tid).success, "a thread that has exited has a stack")
            check(not send_any(w, dap.ScopesRequest, frame_id=fid).success, "a frame that is gone has scopes")
            for r in cur["refs"]:
                check(not send_any(w, dap.VariablesRequest, variables_reference=r).success, "variables of a frame that is gone are shown")
            follow()

    frames_refs: set = set()
    w = Run(client)
    mode = choose("mode", ["pass", "breakpoint", "failed"])
    lines = {"pass": [], "breakpoint": [4, 6, 8], "failed": []}[mode]
    for x in (4, 6, 8):
        w.debugger.register_path_breakpoint(PATH, x, 1)
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=x) for x in lines])
    w.send(dap.SetExceptionBreakpointsRequest, filters=["on_error"])
    if mode == "failed":
        w.outcome = {"failed": True}
        reach("failed")
    if mode == "pass":
        reach("pass")
    todo = [OPS[choose(f"op{i}", len(OPS))] for i in range(choose("n", list(range(1, param("ops") + 1))))]
    task = w.task(w.root, name="t", line=4)
    noop = w.task(w.root, name="m", action="meta", args={"_raw_params": METAS[len(todo) % len(METAS)]}, line=6)
    refresh = w.task(w.root, name="r", action="meta", args={"_raw_params": "refresh_inventory"}, line=8)

    def play(strat: t.Any) -> None:
        look()
        stale()
        while todo:
            op = todo.pop(0)
            reach(op)
            if op == "play":
                return
            stops = cur["stops"]
            names = {"both": ["h1", "h2"], "h2": ["h2"]}.get(op, ["h1"])
            if op in ("noop", "refresh"):
                cur.update(running="h1", new=True)

                def refreshed(_: t.Any) -> list:
                    hosts.update({n: new_host(n) for n in hosts})
                    return []

                old = hosts["h1"]
                w.on_meta = refreshed if op == "refresh" else (lambda _: [])
                w.turn_msgs, w.waits = [], 0
                CALL["meta"](strat, refresh if op == "refresh" else noop, old, w.vars_for(old), None)
                follow()
                check(not live if op == "refresh" else "h1" in live.values(), "a refresh of the inventory does not end the threads, or a task does not have one")
                check(cur["stops"] == stops + (mode == "breakpoint"), "does not stop at a meta task with a breakpoint, or stops without one")
            else:
                for n in names:
                    cur.update(running=n, new=True)
                    w.turn_msgs, w.waits = [], 0
                    strat._queue_task(hosts[n], task, w.vars_for(hosts[n]), None)
                    follow()
                    check(n in live.values(), "a host that runs a task has no thread")
                if mode == "breakpoint":
                    check(cur["stops"] == stops + len(names), "does not stop at the breakpoint")
                for res in list(w.pending):
                    cur.update(running=res._host.get_name(), new=True)
                    w.pending = [res]
                    w.turn_msgs, w.waits = [], 0
                    strat._process_pending_results(None)
                follow()
                if mode == "failed":
                    check(cur["stops"] == stops + len(names), "does not stop at the failure")
            cur["running"] = None
            look()
            stale()

    before = set()
    while True:
        w.turn_msgs, w.waits = [], 0
        w.strat.run(play, None)
        follow()
        check(not live, "threads are left over after their play")
        if used > before and before:
            reach("new-ids")
        before = set(used)
        observe(len(used), cur["stops"])
        if not todo:
            break
