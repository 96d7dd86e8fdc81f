"""Paths the client sees and paths Ansible runs."""

from __future__ import annotations

import sx
from sx import check, choose, harness, observe, param, reach, string

import ansibug.dap as dap
from ansibug._debuggee import DebugConfiguration, PathMapping

from .dbg import drain, new_debugger, one, req
from .strat import World

ROOTS = ["/a", "/a/", "/ab", "/a/b", "/"]


def translate(path: object, pairs: list) -> tuple:
    """The path with the root of the first pair that it is inside of replaced."""
    for i, (src, dst) in enumerate(pairs):
        base = src.rstrip("/")
        if path == base:
            sx.stop_path()  # a root is a directory, not a file that runs
        if path.startswith(base + "/"):  # type: ignore[attr-defined]
            return dst.rstrip("/") + path[len(base) :], i  # type: ignore[index]
    return path, -1


def pick_mappings() -> list:
    """One mapping between any two roots, or more between some."""
    n = choose("maps", param("maps"))
    roots = ROOTS if n == 1 else param("roots")
    return [PathMapping(local_root=choose(f"local{i}", roots), remote_root=choose(f"remote{i}", roots)) for i in range(n)]


def configure(d: object, mappings: list) -> None:
    d.process_message(  # type: ignore[attr-defined]
        req(
            dap.OutputEvent,
            1,
            category=DebugConfiguration.OUTPUT_CATEGORY,
            output="",
            data=DebugConfiguration(path_mappings=mappings),
        )
    )


@harness(
    "C10",
    quick={"maps": [1, 2], "roots": ["/a", "/a/b/"], "len": 4},
    thorough={"maps": [1, 2], "roots": ["/a", "/a/b/", "/"], "len": 5},
    expect=["mapped", "first", "beside", "unmapped", "second"],
    bounds="every client path / followed by up to `len` characters of a, b, /; one mapping between any two of 5 roots (inside and beside each other, with and without a trailing slash), or two between 2 (thorough 3) of them",
)
def breakpoints() -> None:
    d = new_debugger()
    maps = pick_mappings()
    path = "/" + string("path", param("len"), "ab/")
    configure(d, maps)
    one(drain(d), dap.InitializedEvent, "the client is not told that it can configure")
    want, hit = translate(path, [(m.local_root, m.remote_root) for m in maps])
    if hit >= 0:
        reach("mapped")
        reach("second" if hit else "first")
    else:
        reach("unmapped")
        if path.startswith("/a"):  # type: ignore[attr-defined]
            reach("beside")
    loaded = choose("loaded", 2)
    if loaded:
        d.register_path_breakpoint(want, 2, 1)
    d.process_message(
        req(dap.SetBreakpointsRequest, 2, source=dap.Source(path=path, name="n"), breakpoints=[dap.SourceBreakpoint(line=2)])
    )
    resp = one(drain(d), dap.SetBreakpointsResponse, "SetBreakpoints is not answered exactly once")
    b = resp.breakpoints[0]
    check(b.source.path == path, "the response carries another path than the client's")
    check(b.verified == bool(loaded), "a breakpoint in a loaded file is not verified, or the reverse")
    if not loaded:
        d.register_path_breakpoint(want, 2, 1)
        ev = one(drain(d), dap.BreakpointEvent, "the client is not told about a breakpoint in a loaded file")
        check(ev.breakpoint.source.path == path, "an event carries another path than the client's")
        check(ev.breakpoint.id == b.id and ev.breakpoint.verified, "an event is for another breakpoint")
    got = d.get_breakpoint(want, 2)
    check(got is not None and got.id == b.id, "a breakpoint is not hit in the file that its path stands for")
    if path != want:
        check(d.get_breakpoint(path, 2) is None, "a breakpoint is hit in a file of the client's name")
    # the same file again replaces it
    d.process_message(req(dap.SetBreakpointsRequest, 3, source=dap.Source(path=path), breakpoints=[]))
    check(d.get_breakpoint(want, 2) is None, "a removed breakpoint is still hit")
    observe(want, hit)


@harness(
    "C10",
    quick={"maps": [1, 2], "roots": ["/a", "/a/b/"], "len": 4},
    thorough={"maps": [1, 2], "roots": ["/a", "/a/b/", "/"], "len": 5},
    expect=["mapped", "unmapped"],
    bounds="every path Ansible runs: / followed by up to `len` characters of a, b, /; the same mappings",
)
def frames() -> None:
    maps = pick_mappings()
    w = World()
    configure(w.debugger, maps)
    w.collect()
    path = "/" + string("path", param("len"), "ab/")
    want, hit = translate(path, [(m.remote_root, m.local_root) for m in maps])
    reach("mapped" if hit >= 0 else "unmapped")
    check(w.debugger.convert_to_client_path(path) == want, "a path is shown to the client untranslated, or another one")
    host = w.host("h1")
    task = w.task(w.root, name="t", line=2, path=path)
    w.start(host, task)
    tid = w.tid(host)
    frame = w.frames(tid)[0]
    check(frame.source.path == want, "a frame does not show the client's path")
    check(frame.source.name == want[want.rfind("/") + 1 :], "a frame does not show the file's name")
    check(frame.line == 2, "a frame shows the wrong line")
    w.end(host, task)
    observe(want, hit)


@harness(
    "C10",
    quick={"len": 3},
    thorough={"len": 5},
    expect=["inside", "outside"],
    bounds="a client whose paths have backslashes: every path c:\\ followed by up to `len` characters of a, b, \\; 4 local roots with and without a trailing backslash",
)
def backslashes() -> None:
    d = new_debugger()
    root = choose("local", ["c:\\a", "c:\\a\\", "c:\\", "c:\\a\\b\\"])
    configure(d, [PathMapping(local_root=root, remote_root=choose("remote", ["/r", "/r/"]))])
    one(drain(d), dap.InitializedEvent, "the client is not told that it can configure")
    path = "c:\\" + string("path", param("len"), "ab\\")
    base = root.rstrip("\\")
    if path == base:
        sx.stop_path()
    inside = path.startswith(base + "\\")  # type: ignore[attr-defined]
    want = "/r" + path[len(base) :] if inside else path  # type: ignore[index]
    reach("inside" if inside else "outside")
    d.process_message(
        req(dap.SetBreakpointsRequest, 2, source=dap.Source(path=path), breakpoints=[dap.SourceBreakpoint(line=2)])
    )
    resp = one(drain(d), dap.SetBreakpointsResponse, "SetBreakpoints is not answered exactly once")
    check(resp.breakpoints[0].source.path == path, "the response carries another path than the client's")
    names = [want, want.replace("\\", "/")] if inside else [want]  # type: ignore[attr-defined]
    for n in names:
        d.register_path_breakpoint(n, 2, 1)
    evs = [m for m in drain(d) if isinstance(m, dap.BreakpointEvent)]
    check(len(evs) == 1 and evs[0].breakpoint.verified, "the client is not told about a breakpoint in a loaded file")
    check(evs[0].breakpoint.source.path == path, "an event carries another path than the client's")
    check(any(d.get_breakpoint(n, 2) is not None for n in names), "a breakpoint is not hit in the file that its path stands for")
    observe(inside)
