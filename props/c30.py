"""Looking at a stopped playbook changes nothing in it."""

from __future__ import annotations

import typing as t

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap

from .strat import PATH, World, send_any

LOOKS: list = ["threads", "stack", "scopes", "expand", "evaluate", "refused", "paths"]

SHOWN: list = [
    ("x > y", ["repl", "watch", "clipboard", "variables", "hover"]),
    ("l + [y]", ["repl", "watch"]),
    ("d | combine({'k': 1})", ["repl", "watch"]),
    ("!so name 1", ["watch", "clipboard"]),
    ("!t d.k", ["repl"]),
    ("l | sort", ["repl"]),
    ("hostvars.h2", ["repl"]),
    ("undefined_one", ["repl", "watch"]),
]

# (scope, way to it, name, value): none of them can be set
NOT_SET: list = [
    (0, [], "name", "no_such_variable"),
    (0, [], "name", "1 +"),
    (0, ["lst"], "9", "1"),
    (0, ["lst"], "name", "1"),
    (1, [], "x", "undefined_one"),
    (1, ["tup"], "0", "1"),
    (2, [], "x", "undefined_one"),
    (2, ["l"], "7", "x"),
]
COMMANDS: list = ["!so name undefined_one", "!so", "!nothing a b", "!so --help", "!ro missing", "!sh x 1 +", "!", "!ro", "!sh"]


def frozen(value: t.Any, seen: tuple = ()) -> t.Any:
    """The value with the identities of everything that is in it."""
    if id(value) in seen:
        return "again"
    seen += (id(value),)
    if isinstance(value, dict):
        return "dict", id(value), [(k, frozen(v, seen)) for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return type(value).__name__, id(value), [frozen(v, seen) for v in value]
    return "leaf", id(value), value if isinstance(value, str) else None


class Looks:
    def __init__(self, w: World, tasks: list, data: dict, frames: dict) -> None:
        self.w = w
        self.tasks = tasks
        self.data = data
        self.frames = frames
        self.refs: dict = {}  # reference -> (frame, way)
        self.before = self.state()

    def state(self) -> t.Any:
        return [frozen(tk.args) for tk in self.tasks], [frozen(v) for v in self.data.values()]

    def scopes(self, frame: int) -> list:
        got = self.w.send(dap.ScopesRequest, frame_id=frame).scopes
        check([s.name for s in got] == ["Module Options", "Task Variables", "Host Variables", "Global Variables"], "the scopes of a frame are not the expected ones")
        for s in got:
            self.refs[s.variables_reference] = s.variables_reference
        return [s.variables_reference for s in got]

    def expand(self, ref: int) -> dict:
        got = self.w.send(dap.VariablesRequest, variables_reference=ref).variables
        out = {v.name: v.variables_reference for v in got}
        for r in out.values():
            if r:
                self.refs[r] = r
        return out

    def look(self, i: int) -> None:
        w = self.w
        what = choose(f"look{i}", LOOKS)
        reach(what)
        if what == "threads":
            w.send(dap.ThreadsRequest)
        elif what == "stack":
            th = choose(f"thread{i}", len(self.frames["threads"]))
            w.frames(self.frames["threads"][th])
        elif what == "scopes":
            self.scopes(self.frames[choose(f"frame{i}", ["task", "h1", "h2"])])
        elif what == "expand":
            ref = integer(f"ref{i}", -1, 40)
            if ref in self.refs:
                reach("known")
                self.expand(ref)
            else:
                send_any(w, dap.VariablesRequest, variables_reference=ref)
        elif what == "evaluate":
            expr, contexts = SHOWN[choose(f"expr{i}", len(SHOWN))]
            where = choose(f"frame{i}", ["task", "h2"])
            send_any(w, dap.EvaluateRequest, expression=expr, context=choose(f"context{i}", contexts), frame_id=self.frames[where])
        elif what == "refused":
            n = choose(f"refused{i}", len(NOT_SET) + len(COMMANDS))
            if n < len(NOT_SET):
                scope, way, name, value = NOT_SET[n]
                ref = self.scopes(self.frames["task"])[scope]
                for step in way:
                    ref = self.expand(ref)[step]
                r = send_any(w, dap.SetVariableRequest, variables_reference=ref, name=name, value=value)
                check(isinstance(r, dap.ErrorResponse), "a value that cannot be set is accepted")
            else:
                send_any(w, dap.EvaluateRequest, expression=COMMANDS[n - len(NOT_SET)], context="repl", frame_id=self.frames["task"])
        else:
            w.send(dap.SetBreakpointsRequest, source=dap.Source(path="/play/other.yml"), breakpoints=[dap.SourceBreakpoint(line=4)])
        self.verify()

    def verify(self) -> None:
        check(self.state() == self.before, "looking changes the options of a task or a variable")
        check(not self.w.vm.saved, "looking saves a variable")


BOUNDS = "a thread stopped at a task in an include with another one in the include; every sequence of `n` requests that only look (threads, stacks, scopes of 3 frames, any reference up to 40, 8 expressions in each context) or are refused (17 values and commands that cannot be set), then one of `resume`; an integer of the task is any from -9 to 9"
STUBS = "the strategy's condition variable hands control to the modelled client"


@harness(
    "C30",
    quick={"n": 2, "resume": ["next"]},
    thorough={"n": 2, "resume": ["next", "continue", "stepOut"]},
    expect=[*LOOKS, "known", "next", "stepped"],
    bounds=BOUNDS,
    stubs=STUBS,
)
def looking() -> None:
    session()


@harness(
    "C30",
    quick={"n": 1, "resume": ["next", "continue", "stepOut"]},
    thorough={"n": 1, "resume": ["next", "continue", "stepOut"]},
    expect=[*LOOKS, "continue", "next", "stepOut", "stepped", "left"],
    bounds=BOUNDS,
    stubs=STUBS,
)
def resuming() -> None:
    session()


def session() -> None:
    done: list = []
    how = choose("resume", param("resume"))
    reach(how)
    kinds: dict = {"continue": dap.ContinueRequest, "next": dap.NextRequest, "stepOut": dap.StepOutRequest}

    def client() -> None:
        ev = w.stop()
        if not done:
            threads = [w.tid(h) for h in hosts]
            frames: dict = {"task": w.frames(ev.thread_id)[0].id, "threads": [1, *threads]}
            for h, tid in zip(hosts, threads):
                frames[h.get_name()] = w.frames(tid)[-1].id
            looks = Looks(w, [inc, task, more, after], data, frames)
            sent = len(w.sent)
            for i in range(param("n")):
                looks.look(i)
            check(not [m for m in w.sent[sent:] if isinstance(m, dap.Event)], "looking sends an event")
            check(w.waits == 1, "looking lets the playbook go on")
            done.append("task")
            w.send(kinds[how], thread_id=ev.thread_id)
            looks.verify()
        else:
            done.append(now[0])
            w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    now: list = [""]
    w = World(client)
    hosts = [w.host("h1"), w.host("h2")]
    inc = w.task(w.root, name="inc", action="include_tasks", line=2, args={"_raw_params": "{{ x }}.yml"})
    block = w.block(inc)
    args: dict = {"name": "{{ x }}", "opt": {"a": ["{{ y }}", {"b": "{{ l }}"}], "plain": [1]}, "lst": ["{{ d }}", 2]}
    task = w.task(block, name="t", line=4, args=args)
    more = w.task(block, name="u", line=6)
    after = w.task(w.root, name="v", line=8)
    w.debugger.register_path_breakpoint(PATH, 4, 1)
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=4)])
    data: dict = {}

    def variables(where: str, host: t.Any) -> dict:
        x, y = (integer("x", -9, 9), 7) if where == "task" else (len(data), 7)
        v: dict = {"inventory_hostname": host.get_name(), "x": x, "y": y, "d": {1: "one", "k": {"z": [0]}}, "l": ["c", "a", "b"], "tup": (1, 2)}
        v["vars"] = {"x": 1, "l": v["l"]}
        v["hostvars"] = {"h1": {"hv": 1, "x": 5}, "h2": {"hv": [2]}}
        data[where] = v
        return v

    for host in hosts:
        w.start(host, inc, variables(host.get_name(), host))
        w.end(host, inc)
    names = {id(more): "more", id(after): "after"}
    for tk in (task, more, after):
        now[0] = names.get(id(tk), "task")
        w.start(hosts[0], tk, variables("task" if tk is task else now[0], hosts[0]))
        if tk is task:
            check(done == ["task"], "does not stop once at a breakpoint")
        w.end(hosts[0], tk)
    want = {"continue": ["task"], "next": ["task", "more"], "stepOut": ["task", "after"]}[how]
    check(done == want, f"the playbook goes on in another way after it was looked at: {done}")
    reach({"continue": "left", "next": "stepped", "stepOut": "stepped"}[how])
    check(args == {"name": "{{ x }}", "opt": {"a": ["{{ y }}", {"b": "{{ l }}"}], "plain": [1]}, "lst": ["{{ d }}", 2]}, "the options of a task are no longer templates")
    observe(how)
