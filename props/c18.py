"""Variables changed by the client."""

from __future__ import annotations

import copy
import datetime

import sx
from sx import check, choose, harness, observe, param, reach

import ansibug.dap as dap

from .strat import PATH, World, is_container, send_any, type_name

OPT, TASK, HOST, GLOBAL = range(4)
SCOPES = ["Module Options", "Task Variables", "Host Variables", "Global Variables"]

# (expression, its value); KeyError: it cannot be evaluated
EXPRS: list = [
    ("1", 1),
    ("'text'", "text"),
    ("num + 1", lambda m: m["num"] + 1),
    ("{'a': [1, 'b']}", {"a": [1, "b"]}),
    ("no_such_variable", KeyError),
    ("[num, none]", lambda m: [m["num"], None]),
    ("true", True),
    ("1 +", KeyError),
    ("-5", -5),
    ("num -", KeyError),
    ("2.5", 2.5),
    ("'é '", "é "),
    ("{'a': {'b': num}}", lambda m: {"a": {"b": m["num"]}}),
    ("[]", []),
    ("false", False),
    ("'%s'", "%s"),
    ("'}}'", "}}"),
]

# scope, way to the container, name in it
TARGETS: list = [
    (OPT, [], "name"),
    (OPT, [], "new"),
    (OPT, ["opt"], "x"),
    (OPT, ["opt", "x"], "1"),
    (OPT, ["opt"], "added"),
    (OPT, ["lst"], "0"),
    (OPT, ["lst", "1"], "k"),
    (TASK, ["d"], "2024-01-31"),
    (TASK, [], "num"),
    (TASK, [], "extra"),
    (TASK, ["d"], "1"),
    (TASK, ["d"], "K"),
    (TASK, ["d", "k"], "z"),
    (TASK, ["l"], "0"),
    (TASK, ["l", "1"], "0"),
    (HOST, [], "hv"),
    (HOST, [], "new"),
    (HOST, ["hd"], "a"),
    (HOST, ["hd", "b"], "0"),
    (HOST, [], "num"),
    (GLOBAL, [], "num"),
]
NESTED = [t for t in TARGETS if t[1]]

REPL: list = [
    ("!so name ", "opt", "name"),
    ("!set_option fresh ", "opt", "fresh"),
    ("!sh hv ", "host", "hv"),
    ("!so ' edge ' ", "opt", " edge "),
    ("!sh \"a b\" ", "host", "a b"),
    ("!ro ' name'", "remove", " name"),
    ("!set_hostvar fresh ", "host", "fresh"),
    ("!ro name", "remove", "name"),
    ("!remove_option Name", "remove", "Name"),
    ("!t ", "eval", None),
    ("!template ", "eval", None),
    ("", "eval", None),
]


def exprs(i: int, n: int) -> int:
    """How many of EXPRS are used at step i of n."""
    return len(EXPRS) if n == 1 else 8 if i == 0 else param("exprs")


def evaluate(expr: tuple, model: dict) -> tuple:
    """The expression with its value for these variables."""
    if not callable(expr[1]) or expr[1] is KeyError:
        return expr
    try:
        return expr[0], copy.deepcopy(expr[1](model))
    except TypeError:
        return expr[0], KeyError


def key_of(container: object, name: str) -> object:
    if isinstance(container, list):
        return int(name)
    assert isinstance(container, dict)
    if name in container:
        return name
    for k in container:
        if str(k) == name:
            return k
    return name


class Session:
    def __init__(self, w: World, frame: int, task: object, tv: dict, rescope: bool = True) -> None:
        self.w = w
        self.frame = frame
        self.task = task
        self.tv = tv
        self.args = copy.deepcopy(task.args)  # type: ignore[attr-defined]
        self.model = {k: v for k, v in tv.items()}
        self.model = copy.deepcopy(tv)
        self.saved: dict = {}
        if rescope:
            self.rescope()

    def rescope(self) -> None:
        got = self.w.send(dap.ScopesRequest, frame_id=self.frame).scopes
        check([s.name for s in got] == SCOPES, "the scopes of a frame are not the expected ones")
        self.refs = [s.variables_reference for s in got]

    def root(self, scope: int) -> dict:
        if scope == OPT:
            return self.args
        if scope == TASK:
            return self.model
        if scope == GLOBAL:
            return self.model["vars"]
        if not hasattr(self, "host"):
            self.host = {k: v for k, v in self.model["hostvars"]["h1"].items()}
            for k, v in self.model.items():
                self.host.setdefault(k, v)
        return self.host

    def find(self, ref: int, name: str) -> object:
        got = self.w.send(dap.VariablesRequest, variables_reference=ref).variables
        hits = [v for v in got if v.name == name]
        return hits[0] if len(hits) == 1 else None

    def walk(self, scope: int, way: list) -> tuple:
        ref = self.refs[scope]
        model: object = self.root(scope)
        for name in way:
            v = self.find(ref, name)
            if v is None or not is_container(model):
                return 0, None
            ref = v.variables_reference  # type: ignore[attr-defined]
            model = model[key_of(model, name)]  # type: ignore[index]
        return ref, model

    def set(self, target: tuple, expr: tuple) -> None:
        scope, way, name = target
        expr = evaluate(expr, self.model)
        ref, model = self.walk(scope, way)
        if ref == 0 or not isinstance(model, (dict, list)) or (
            isinstance(model, list) and not (name.isdigit() and int(name) < len(model))
        ):
            sx.stop_path()  # an earlier write removed the target
        resp = send_any(self.w, dap.SetVariableRequest, variables_reference=ref, name=name, value=expr[0])
        if expr[1] is KeyError:
            check(isinstance(resp, dap.ErrorResponse), "a value that cannot be evaluated is accepted")
            reach("refused")
        else:
            check(isinstance(resp, dap.SetVariableResponse), "a write fails")
            new = copy.deepcopy(expr[1])
            check(resp.value == repr(new), "the response shows another value")
            check(resp.type == type_name(new), "the response shows another type")
            check((resp.variables_reference > 0) == is_container(new), "the response has no reference to the new value")
            model[key_of(model, name)] = new  # type: ignore[index]
            v = self.find(ref, name)
            check(v is not None, "the variable that was set is not shown, or twice")
            check(v.value == repr(new), "the variable still shows its old value")  # type: ignore[attr-defined]
            if scope == HOST:
                top = way[0] if way else name
                self.saved[top] = self.root(HOST)[top]
            reach("nested" if way else "top")
            reach(SCOPES[scope])
        self.verify()

    def repl(self, cmd: tuple, expr: tuple, context: str) -> None:
        text, what, name = cmd
        expr = evaluate(expr, self.model)
        if what == "remove":
            expr = ("", None)
        if what in ("opt", "host") and context != "repl":
            sx.stop_path()
        resp = send_any(
            self.w, dap.EvaluateRequest, expression=text + expr[0], context=context, frame_id=self.frame
        )
        bad = expr[1] is KeyError
        if what == "eval":
            check(isinstance(resp, dap.EvaluateResponse), "an evaluation is not answered")
            if bad:
                check(resp.type is None, "a failed evaluation has a type")
                check(resp.result != "", "a failed evaluation says nothing")
            else:
                check(resp.result == repr(expr[1]), "an evaluation gives the wrong value")
                check(resp.type == type_name(expr[1]), "an evaluation gives the wrong type")
            reach("eval")
        elif bad:
            check(isinstance(resp, dap.ErrorResponse), "a value that cannot be evaluated is accepted")
        else:
            check(isinstance(resp, dap.EvaluateResponse), "a console command fails")
            new = copy.deepcopy(expr[1])
            if what == "opt":
                self.args[name] = new
            elif what == "remove":
                self.args.pop(name, None)
                reach("removed")
            else:
                self.root(HOST)[name] = new
                self.model[name] = new
                self.saved[name] = new
                reach("sh")
        self.verify()

    def verify(self) -> None:
        check(self.task.args == self.args, "the module does not run with the options that the client set")  # type: ignore[attr-defined]
        check(self.tv == self.model, "the task does not run with the variables that the client set")
        got: dict = {}
        for host, name, value in self.w.vm.saved:
            check(host == "h1", "a variable is saved for another host")
            got[name] = value
        check(got == self.saved, "the host does not keep the variables that the client set")


def run(do: object, rescope: bool = True) -> None:
    out: dict = {}

    def client() -> None:
        ev = w.stop()
        frame = w.frames(ev.thread_id)[0].id
        s = Session(w, frame, task, tv, rescope)
        if not rescope and choose("elsewhere", 2):
            # the variables of another host's frame are on show
            w.send(dap.ScopesRequest, frame_id=w.frames(w.tid(other))[0].id)
        do(s)  # type: ignore[operator]
        out["done"] = True
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    host, other = w.host("h1"), w.host("h2")
    task = w.task(w.root, name="t", line=2, args={"name": "v", "opt": {"x": [1, 2], "y": "z"}, "lst": ["a", {"k": 0}]})
    tv: dict = {"inventory_hostname": "h1", "num": 7, "d": {1: "one", "k": {"z": 0}, datetime.date(2024, 1, 31): "day"}, "l": ["e", [2]]}
    tv["vars"] = copy.deepcopy(tv)
    tv["hostvars"] = {"h0": {"hv": 0}, "h1": {"hv": 1, "num": 70, "hd": {"a": 1, "b": [0]}}}
    w.debugger.register_path_breakpoint(PATH, 2, 1)
    w.send(dap.SetBreakpointsRequest, source=dap.Source(path=PATH), breakpoints=[dap.SourceBreakpoint(line=2)])
    if not rescope:
        inc = w.task(w.root, name="i", line=1, action="include_tasks")
        w.start(other, inc, w.vars_for(other, opt=1))
        w.end(other, inc)
    w.start(host, task, tv)
    check(bool(out), "does not stop at its breakpoint")
    w.end(host, task)
    observe(len(w.vm.saved))


@harness(
    "C18",
    quick={"writes": 2, "exprs": 3},
    thorough={"writes": 2, "exprs": 6},
    expect=["top", "nested", "refused"] + SCOPES,
    bounds="every sequence of 1..writes SetVariable requests over 21 targets (four scopes, existing and new names, nested dicts and lists) and `exprs` expressions (all 17 for a single one, 8 for the first of several)",
    stubs="the strategy's condition variable hands control to the modelled client; the variable manager records; host variables are a plain dict",
)
def set_variable() -> None:
    def do(s: Session) -> None:
        n = choose("n", list(range(1, param("writes") + 1)))
        for i in range(n):
            target = TARGETS[choose(f"target{i}", len(TARGETS))]
            s.set(target, EXPRS[choose(f"expr{i}", exprs(i, n))])
            if choose(f"rescope{i}", 2):
                if hasattr(s, "host"):
                    break
                s.rescope()

    run(do)


@harness(
    "C18",
    quick={"cmds": 2, "exprs": 3},
    thorough={"cmds": 3, "exprs": 3},
    expect=["eval", "removed", "sh"],
    bounds="every sequence of 1..cmds console commands (set/remove option, set host variable, template, plain expression; long and short names) and SetVariable requests with the first `exprs` expressions (all 17 for a single one, 8 for the first of several)",
    stubs="the strategy's condition variable hands control to the modelled client; the variable manager records; host variables are a plain dict",
)
def console() -> None:
    def do(s: Session) -> None:
        n = choose("n", list(range(1, param("cmds") + 1)))
        for i in range(n):
            k = choose(f"cmd{i}", len(REPL) + 2)
            expr = EXPRS[choose(f"expr{i}", exprs(i, n))]
            if k < len(REPL):
                cmd = REPL[k]
                context = "repl"
                if cmd[0] == "":
                    context = choose(f"context{i}", ["repl", "watch", "clipboard", "variables"])
                s.repl(cmd, expr, context)
            else:
                s.set([(OPT, [], "name"), (TASK, [], "num")][k - len(REPL)], expr)

    run(do)
