"""Variable references: what they show and how long they live."""

from __future__ import annotations

import dataclasses

import sx
from sx import check, choose, harness, observe, param, reach

import ansibug.dap as dap

from .strat import PATH, World, children, is_container, send_any, type_name


@dataclasses.dataclass
class Info:
    x: int
    y: str = "why"


VALUES: list = [
    {"deep": {"l": [1, {"z": None}], "e": {}}, "s": "text"},
    [list(range(120)), [], "x", {"a": 1.5}],
    {1: "int key", "t": (1, "two"), "b": True, "d": Info(3)},
    "plain " * 900,
    [],
]


class Book:
    """What the client knows: reference -> (object behind it, frame)."""

    def __init__(self, w: World) -> None:
        self.w = w
        self.refs: dict = {}
        self.used: set = set()

    def add(self, ref: int, value: object, frame: int, named: int, indexed: int) -> None:
        check(ref > 0, "a container has no reference")
        check(ref not in self.used, "a reference is used twice")
        self.used.add(ref)
        self.refs[ref] = (value, frame)
        check(named == (len(value) if isinstance(value, dict) else 0), "wrong number of named variables")
        check(indexed == (0 if isinstance(value, dict) else len(value)), "wrong number of indexed variables")

    def scopes(self, frame: int, args: dict, tv: dict, result: object = None) -> list:
        got = self.w.send(dap.ScopesRequest, frame_id=frame).scopes
        host = dict(tv["hostvars"][tv["inventory_hostname"]])
        for k, v in tv.items():
            host.setdefault(k, v)
        want = [
            ("Module Options", args),
            ("Task Variables", tv),
            ("Host Variables", host),
            ("Global Variables", tv["vars"]),
        ]
        if result is not None:
            check(len(got) > 0 and got[0].name == "Module Result", "the result is not the first scope")
            first = got.pop(0)
            if first.variables_reference not in self.refs or self.refs[first.variables_reference][0] is not result:
                self.add(first.variables_reference, result, frame, first.named_variables, first.indexed_variables)
        check([s.name for s in got] == [n for n, _ in want], "the scopes of a frame are not the expected ones")
        for s, (_n, v) in zip(got, want):
            self.add(s.variables_reference, v, frame, s.named_variables, s.indexed_variables)
        return [s.variables_reference for s in got]

    def expand(self, ref: int) -> list:
        value, frame = self.refs[ref]
        got = self.w.send(dap.VariablesRequest, variables_reference=ref).variables
        want = children(value)
        check([v.name for v in got] == [n for n, _ in want], "a reference shows the wrong names")
        out = []
        for v, (_n, x) in zip(got, want):
            check(v.value == repr(x), "a reference shows the wrong value")
            check(v.type == type_name(x), "a reference shows the wrong type")
            inner = dataclasses.asdict(x) if isinstance(x, Info) else x
            if is_container(inner):
                self.add(v.variables_reference, inner, frame, v.named_variables, v.indexed_variables)
                out.append(v.variables_reference)
            else:
                check(v.variables_reference == 0, "a plain value has a reference")
                check(v.named_variables == 0 and v.indexed_variables == 0, "a plain value has children")
        return out

    def check_all(self, alive: set) -> None:
        for ref, (_value, frame) in list(self.refs.items()):
            if frame in alive:
                self.expand(ref)
                reach("still-valid")
            else:
                resp = send_any(self.w, dap.VariablesRequest, variables_reference=ref)
                check(isinstance(resp, dap.ErrorResponse), "a reference of a finished task still answers")
                reach("released")


@harness(
    "C17",
    quick={"ops": 3, "values": 4},
    thorough={"ops": 4, "values": 5},
    expect=["still-valid", "released", "nested", "two-deep", "unwound", "result"],
    bounds="two stops inside an include and one after it; 0..ops requests (scopes of either frame, expansion of any reference seen) at the first; a task that succeeds, or fails and stops again with its result; variables holding each of 5 nested values",
    stubs="the strategy's condition variable hands control to the modelled client; host variables are a plain dict",
)
def lifetime() -> None:
    cur: dict = {}

    def client() -> None:
        ev = w.stop()
        frames = [f.id for f in w.frames(ev.thread_id)]
        step = cur["step"]
        if cur["result"] is not None:
            # the task has failed, its frame is still there
            check(ev.reason == dap.StoppedReason.EXCEPTION, "the stop gives the wrong reason")
            for _ in range(2):
                book.scopes(frames[0], *cur["tv"][frames[0]], cur["result"])
            reach("result")
            book.check_all(set(frames))
            w.send(dap.ContinueRequest, thread_id=ev.thread_id)
            return
        if step == 0:
            cur["inc"] = frames[0]
            cur["tv"] = {frames[0]: (inc.args, tv_inc)}
        elif step == 1:
            check(frames[1:] == [cur["inc"]], "the include is not on the stack")
            cur["tv"][frames[0]] = (task.args, tv)
            for i in range(param("ops")):
                ops: list = [("stop", 0)] + [("scopes", f) for f in frames] + [("expand", r) for r in book.refs]
                op, arg = ops[choose(f"op{i}", len(ops))]
                if op == "stop":
                    break
                if op == "scopes":
                    book.scopes(arg, *cur["tv"][arg])
                else:
                    if book.expand(arg):
                        reach("nested")
                    if book.refs[arg][0] in VALUES:
                        reach("two-deep")
            book.check_all(set(frames))
        elif step == 2:
            check(frames[1:] == [cur["inc"]], "the include is not on the stack")
            book.check_all(set(frames))
        else:
            check(len(frames) == 1, "a finished include is on the stack")
            book.check_all(set(frames))
            reach("unwound")
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    book = Book(w)
    host = w.host("h1")
    value = VALUES[choose("value", param("values"))]
    inc = w.task(w.root, name="inc", action="include_tasks", line=2, args={"_raw_params": "x.yml"})
    block = w.block(inc)
    task = w.task(block, name="t", line=4, args={"opt": value if not isinstance(value, dict) else "o"})
    more = w.task(block, name="u", line=6)
    after = w.task(w.root, name="v", line=8)
    tv_inc = w.vars_for(host, i=1)
    tv = w.vars_for(host, val=value, hv="of the task")
    for line in (2, 4, 6, 8):
        w.debugger.register_path_breakpoint(PATH, line, 1)
    w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=x) for x in (2, 4, 6, 8)],
    )
    failing = choose("failing", 2)
    w.send(dap.SetExceptionBreakpointsRequest, filters=["on_error"])
    for i, (tk, v) in enumerate([(inc, tv_inc), (task, tv), (more, w.vars_for(host)), (after, w.vars_for(host))]):
        cur.update(step=i, result=None)
        w.start(host, tk, v)
        check(w.waits > 0, "does not stop at its breakpoint")
        if i == 1 and failing:
            cur["result"] = {"failed": True, "msg": "no", "value": value}
            w.end(host, tk, cur["result"])
            check(w.waits > 0, "does not stop at the failure")
        else:
            w.end(host, tk)
    book.check_all(set())
    observe(len(book.used))
