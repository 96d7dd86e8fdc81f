"""Which tasks stop for a line breakpoint."""

from __future__ import annotations

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap

from .strat import PATH, World

# (condition, value for x = 0, 1, 2); None: the condition is not usable
CONDS: list = [
    (None, (True, True, True)),
    ("", (True, True, True)),
    ("x == 1", (False, True, False)),
    ("x > 0 and inventory_hostname == 'h2'", None),
    ("missing == 1", (False, False, False)),
    ("x == ", (False, False, False)),
    ("x / 0 == 1", (False, False, False)),
    ("x | bool", (False, True, False)),
    ("[1][x] == 1", (True, False, False)),
    ("x | no_such_filter", (False, False, False)),
    ("lookup('no_such_lookup')", (False, False, False)),
    ("x.y.z is defined", (False, False, False)),
    ("not (x == 1)", (True, False, True)),
    ("{{ x == 1 }}", (False, True, False)),
    ("x is no_such_test", (False, False, False)),
    ("'%s' % (x, x) == 'a'", (False, False, False)),
    ("x()", (False, False, False)),
    ("range(0, x, 0) | list", (False, False, False)),
]


def holds(cond: tuple, x: int, host: str) -> bool:
    if cond[1] is None:
        return x > 0 and host == "h2"
    return bool(cond[1][x])


@harness(
    "C13",
    quick={"second": 6},
    thorough={"second": 18},
    expect=["stop", "pass", "two", "second-decides", "elsewhere"],
    bounds="a task (lines 4..7 of its file) run three times, by two hosts, with x in 0..2 each, one or two breakpoints at lines 3..8, each with one of 18 conditions (absent, true or false by host, undefined, broken, failing); the second from the first `second` of them",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def conditions() -> None:
    cur: dict = {}

    def client() -> None:
        ev = w.stop()
        check(cur["want"] != [], "stops at a task without a breakpoint whose condition holds")
        check(ev.reason == dap.StoppedReason.BREAKPOINT, "the stop gives the wrong reason")
        got = list(ev.hit_breakpoint_ids)
        check(len(got) >= 1 and all(g in cur["want"] for g in got), "the stop names a breakpoint that does not apply")
        check(ev.thread_id == w.tid(cur["host"]), "the stop names another thread")
        cur["stopped"] = True
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    for line in (2, 4, 8):
        w.debugger.register_path_breakpoint(PATH, line, 1)
    bps: list = []
    n = choose("bps", [1, 2])
    for i in range(n):
        pool = CONDS if i == 0 else CONDS[: param("second")]
        cond = pool[choose(f"cond{i}", len(pool))]
        at = choose(f"line{i}", [4, 6, 3, 8] if n == 1 else [4, 7])
        bps.append((cond, at))
    resp = w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=at, condition=c[0]) for c, at in bps],
    )
    task = w.task(w.root, name="t", line=4)
    hosts = {name: w.host(name) for name in ("h1", "h2")}
    for i, name in enumerate(("h1", "h2", "h1")):
        host = hosts[name]
        x = choose(f"x{i}", 3 if n == 1 else 2)
        want = []
        for (c, at), b in zip(bps, resp.breakpoints):
            if 4 <= at < 8 and holds(c, x, name):
                want.append(b.id)
        if n == 2:
            reach("two")
            if want == [resp.breakpoints[1].id]:
                reach("second-decides")
        if bps[0][1] in (3, 8):
            reach("elsewhere")
        cur.update(want=want, host=host, stopped=False)
        w.start(host, task, w.vars_for(host, x=x))
        check(cur["stopped"] == bool(want), "does not stop at a breakpoint whose condition holds")
        reach("stop" if want else "pass")
        w.end(host, task)
        observe(name, bool(want))


FORMULAS: list = [
    ("x == y", lambda x, y: x == y),
    ("x > 0 and y < x", lambda x, y: x > 0 and y < x),
    ("not (x + y >= 7)", lambda x, y: not (x + y >= 7)),
    ("x // 3 == y", lambda x, y: x // 3 == y),
    ("(x - y) * 2 > 30 or x == -9", lambda x, y: (x - y) * 2 > 30 or x == -9),
    ("x % 7 == y or y // 0 > 1", lambda x, y: x % 7 == y),
    ("x in [y, 3]", lambda x, y: x == y or x == 3),
    ("undef == x", lambda x, y: False),
]


@harness(
    "C13",
    quick={"lo": -1000, "hi": 1000, "runs": 3},
    thorough={"lo": -100000, "hi": 100000, "runs": 4},
    expect=["stop", "pass"],
    bounds="a task, included by another one with variables of its own or not, run `runs` times by two hosts, two conditional breakpoints out of 8 formulas over x and y, for all integers x and y from lo to hi",
    stubs="the strategy's condition variable hands control to the modelled client",
)
def formulas() -> None:
    cur: dict = {}

    def client() -> None:
        ev = w.stop()
        cur["got"] = list(ev.hit_breakpoint_ids)
        w.send(dap.ContinueRequest, thread_id=ev.thread_id)

    w = World(client)
    w.debugger.register_path_breakpoint(PATH, 4, 1)
    i = choose("formula", len(FORMULAS))
    picked = [FORMULAS[i], FORMULAS[(i + choose("other", [1, 2])) % len(FORMULAS)]]
    resp = w.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=PATH),
        breakpoints=[dap.SourceBreakpoint(line=4, condition=c) for c, _ in picked],
    )
    ids = [b.id for b in resp.breakpoints]
    task = w.task(w.root, name="t", line=4)
    hosts = [w.host("h1"), w.host("h2")]
    if choose("included", 2):
        inc = w.task(w.root, name="inc", action="include_tasks", line=2)
        task = w.task(w.block(inc), name="t", line=4)
        for host in hosts:
            w.start(host, inc, w.vars_for(host, x=3, y=3))
            w.end(host, inc)
    for k in range(param("runs")):
        x, y = integer(f"x{k}", param("lo"), param("hi")), integer(f"y{k}", param("lo"), param("hi"))
        host = hosts[k % 2]
        cur["got"] = []
        w.start(host, task, w.vars_for(host, x=x, y=y))
        truth = [f(x, y) for _, f in picked]
        if cur["got"]:
            check(len(cur["got"]) == 1 and cur["got"][0] in ids, "the stop names an unknown breakpoint")
            check(truth[ids.index(cur["got"][0])], "stops at a breakpoint whose condition does not hold")
            reach("stop")
        else:
            check(sx.not_(sx.any_(*truth)), "does not stop at a breakpoint whose condition holds")
            reach("pass")
        w.end(host, task)
