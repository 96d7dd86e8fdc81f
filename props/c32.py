"""Ansible's own work goes through the debugger unchanged."""

from __future__ import annotations

import copy
import types
import typing as t

import sx
from sx import check, choose, flag, harness, integer, observe, param, reach

import ansibug.dap as dap
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as strategy
from ansible.errors import AnsibleError
from ansible.executor.task_result import TaskResult
from ansible.inventory.host import Host

from .strat import LOADER, PATH, World

# As the linear strategy calls it: the plugin looks at the variables of its caller.
CALL: dict = {}
exec("def meta(strat, task, host, task_vars, it, pc):\n    return strat._execute_meta(task, pc, it, target_host=host)\n", CALL)

METHODS = ["run", "_queue_task", "_process_pending_results", "_execute_meta", "_load_included_file"]
ERRORS: list = [AnsibleError("broken"), KeyboardInterrupt(), RuntimeError("odd"), StopIteration("x")]
OPS = ["queue", "results", "meta", "include"]
METAS = ["noop", "refresh_inventory", "end_host"]
RESULTS: list = [
    ({"changed": True}, {}),
    ({"failed": True, "msg": "no"}, {}),
    ({"failed": True, "msg": "no"}, {"ignore_errors": True}),
    ({"unreachable": True, "msg": "gone"}, {}),
    ({"skipped": True}, {}),
]


class Base:
    """Stands for Ansible's strategy: records its calls, then does what the path says."""

    def __init__(self) -> None:
        self.calls: list = []
        self.does: dict = {}
        base = strategy.StrategyModule.__mro__[1]
        for name in METHODS:
            old = base.__dict__.get(name)
            setattr(base, name, self.method(name))
            sx.cleanup(lambda n=name, o=old: setattr(base, n, o) if o is not None else delattr(base, n))

    def method(self, name: str) -> t.Callable:
        def f(this: t.Any, *a: t.Any, **k: t.Any) -> t.Any:
            self.calls.append((name, a, k))
            return self.does[name](*a, **k)

        return f


NAMES = {
    "_queue_task": ["host", "task", "task_vars", "play_context"],
    "_process_pending_results": ["iterator", "one_pass", "max_passes"],
    "_execute_meta": ["task", "play_context", "iterator", "target_host"],
    "_load_included_file": ["included_file", "iterator", "is_handler", "handle_stats_and_callbacks"],
    "run": ["iterator", "play_context"],
}


def bind(name: str, a: tuple, k: dict) -> dict:
    names = NAMES[name]
    check(len(a) <= len(names) and not set(names[: len(a)]) & set(k), "Ansible is called in a way that it is not defined")
    return {**dict(zip(names, a)), **k}


def same_call(base: Base, name: str, want: dict) -> None:
    check([c[0] for c in base.calls] == [name], f"{name} of Ansible is not called exactly once")
    got = bind(*base.calls[0])
    check(set(got) == set(want), f"{name} of Ansible is called with other arguments")
    for key, value in want.items():
        check(sx.any_(got[key] is value, sx.is_(got[key], value)), f"{name} of Ansible gets another {key}")
    base.calls.clear()


@harness(
    "C32",
    quick={"ops": 2, "kinds": [0, 1, 3], "metas": 2, "styles": 2},
    thorough={"ops": 2, "kinds": [0, 1, 2, 3, 4], "metas": 3, "styles": 3},
    expect=["queue", "results", "meta", "include", "raised", "stopped", "failed-stop", "second-play", "handlers"],
    bounds="two plays; in the first 1..ops calls of the methods that the plugin extends (a task, 0..2 results of the given kinds, up to 3 meta tasks, an included file of 0..2 blocks with handlers), each of which returns or raises one of 4 errors; with and without breakpoints at every task and all exception filters, every stop continued; any value that a play returns",
    stubs="the methods of Ansible's linear strategy only record their calls and do what the path says; the strategy's condition variable hands control to the modelled client",
)
def passes_through() -> None:
    cur: dict = {"stops": 0}

    def client() -> None:
        ev = w.stop()
        cur["stops"] += 1
        reach("failed-stop" if ev.reason == dap.StoppedReason.EXCEPTION else "stopped")
        frame = w.frames(ev.thread_id)[0]
        w.send(dap.ScopesRequest, frame_id=frame.id)
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)
        w.turn_msgs = []

    w = World(client)
    w.debugger._strategy = None  # the strategy makes a state for each play
    base = Base()
    strat = object.__new__(strategy.StrategyModule)
    strat._tqm = None
    strat._loader = LOADER
    strat._variable_manager = w.vm
    strat._warning_ctx = None
    hosts = [Host("h1"), Host("h2")]
    stops = choose("stops", [False, True])
    for x in (2, 4, 6):
        w.debugger.register_path_breakpoint(PATH, x, 1)
    w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=x) for x in (2, 4, 6)] if stops else [],
    )
    w.send(dap.SetExceptionBreakpointsRequest, filters=["on_error", "on_unreachable", "on_skipped"] if stops else [])
    task = w.task(w.root, name="t", line=2, args={"a": "{{ x }}", "b": [1]})
    pc = types.SimpleNamespace()
    play = types.SimpleNamespace(handlers=[w.block(None)])
    iterator = types.SimpleNamespace(_play=play)
    n = choose("n", list(range(1, param("ops") + 1)))

    def attempt(name: str, give: t.Callable, call: t.Callable, what: str) -> t.Any:
        """Call the plugin's method while Ansible's returns or raises; what comes back."""
        last = what.endswith(str(n - 1))  # an error ends the play
        err = choose(f"raises_{what}", [None] + ERRORS) if last else None

        def does(*a: t.Any, **k: t.Any) -> t.Any:
            r = give(*a, **k)
            if err is not None:
                raise err
            return r

        base.does[name] = does
        w.turn_msgs, w.waits = [], 0
        cur["raised"] = err
        if err is None:
            r = call()
            return r
        reach("raised")
        call()
        sx.fail("an error that Ansible raises is lost")

    def body(it: t.Any, ctx: t.Any) -> t.Any:
        check(it is iterator and ctx is pc, "the play is run with other arguments")
        base.calls.clear()
        for i in range(n):
            op = choose(f"op{i}", OPS)
            reach(op)
            host = hosts[i % 2]
            tv = w.vars_for(host, x=[1, {"y": 2}])
            snap = copy.deepcopy(tv)
            args = copy.deepcopy(task.args)
            if op == "queue":
                back = object()
                got = attempt("_queue_task", lambda *a, **k: back, lambda: strat._queue_task(host, task, tv, pc), f"q{i}")
                same_call(base, "_queue_task", {"host": host, "task": task, "task_vars": tv, "play_context": pc})
                check(got is back, "what Ansible returns is lost")
            elif op == "results":
                # the tasks that the results are of
                k = choose(f"k{i}", [0, 1, 2])
                kinds = [choose(f"res{i}_{j}", param("kinds")) for j in range(k)]
                for j in range(k):
                    base.does["_queue_task"] = lambda *a, **k: None
                    w.turn_msgs, w.waits = [], 0
                    strat._queue_task(hosts[j], task, w.vars_for(hosts[j]), pc)
                base.calls.clear()
                datas = [dict(RESULTS[x][0]) for x in kinds]
                res = [TaskResult(hosts[j], task, datas[j], dict(RESULTS[x][1])) for j, x in enumerate(kinds)]
                shown = list(res)
                before = copy.deepcopy(datas)
                how = choose(f"how{i}", ["plain", "passes"])
                passes = integer(f"passes{i}", 0, 9)
                kw: dict = {"max_passes": passes} if how == "passes" else {}
                got = attempt("_process_pending_results", lambda *a, **k: res, lambda: strat._process_pending_results(iterator, **kw), f"r{i}")
                same_call(base, "_process_pending_results", {"iterator": iterator, **kw})
                check(len(got) == len(shown) and all(a is b for a, b in zip(got, shown)), "the results are not those of Ansible, in its order")
                check(datas == before, "a result is changed")
            elif op == "meta":
                meta = w.task(w.root, name="m", action="meta", line=4, args={"_raw_params": choose(f"meta{i}", METAS[: param("metas")])})
                back = [{"msg": "m"}]
                got = attempt("_execute_meta", lambda *a, **k: back, lambda: CALL["meta"](strat, meta, host, tv, iterator, pc), f"m{i}")
                same_call(base, "_execute_meta", {"task": meta, "play_context": pc, "iterator": iterator, "target_host": host})
                check(got is back and back == [{"msg": "m"}], "what Ansible returns is lost")
            else:
                blocks = [w.block(None) for _ in range(choose(f"blocks{i}", 3))]
                for b in blocks:
                    b.block = [w.task(b, name="n", line=6)]
                want = list(blocks)
                more = [w.block(None)] if choose(f"handlers{i}", 2) else []
                if more:
                    more[0].block = [w.task(more[0], name="handler", line=6)]
                    reach("handlers")
                handlers = play.handlers + more
                file = object()
                is_handler = flag(f"is_handler{i}")
                style = choose(f"style{i}", ["linear", "positional", "free"][: param("styles")])
                if style == "linear":
                    sent: dict = {"included_file": file, "iterator": iterator, "is_handler": is_handler, "handle_stats_and_callbacks": False}
                    call = lambda: strat._load_included_file(file, iterator=iterator, is_handler=is_handler, handle_stats_and_callbacks=False)
                elif style == "free":
                    sent = {"included_file": file, "iterator": iterator}
                    call = lambda: strat._load_included_file(file, iterator=iterator)
                else:
                    sent = {"included_file": file, "iterator": iterator, "is_handler": is_handler}
                    call = lambda: strat._load_included_file(file, iterator, is_handler)

                def load(*a: t.Any, **k: t.Any) -> list:
                    play.handlers.extend(more)
                    return blocks

                got = attempt("_load_included_file", load, call, f"i{i}")
                same_call(base, "_load_included_file", sent)
                check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "the blocks of the included file are not those of Ansible")
                check(len(play.handlers) == len(handlers) and all(a is b for a, b in zip(play.handlers, handlers)), "the handlers of the play are changed")
            check(tv == snap, "the variables of the task are changed")
            check(task.args == args, "the options of the task are changed")
        return rc

    rc = integer("rc", 0, 255)
    for number in range(2):
        cur["raised"] = None
        base.does["run"] = body if number == 0 else (lambda it, ctx: rc)
        w.turn_msgs, w.waits = [], 0
        try:
            got = strat.run(iterator, pc)
        except (AnsibleError, KeyboardInterrupt, RuntimeError, StopIteration) as e:
            err = cur["raised"]
            # an error of a generator's caller is not to be mistaken for its own
            check(err is not None and e is err, f"the play ends with another error: {type(e).__name__}")
        else:
            check(cur["raised"] is None, "an error that Ansible raises is lost")
            check(got == rc, "the play does not return what Ansible returns")
        w.collect()
        events = [(m.reason, m.thread_id) for m in w.sent if isinstance(m, dap.ThreadEvent)]
        check(
            sorted(x for why, x in events if why == "started") == sorted(x for why, x in events if why != "started"),
            "threads are left over after their play",
        )
        if number:
            reach("second-play")
    if not stops:
        check(cur["stops"] == 0, "stops although nothing asks for it")
    observe(cur["stops"])
