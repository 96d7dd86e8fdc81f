"""Every task can have a breakpoint as soon as its file is loaded."""

from __future__ import annotations

import os
import shutil
import tempfile
import types
import typing as t

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as strategy
from ansibug.ansible_collections.ansibug.dap.plugins.callback import debug as callback
from ansible.inventory.host import Host
from ansible.inventory.manager import InventoryManager
from ansible.parsing.dataloader import DataLoader
from ansible.playbook import Playbook
from ansible.playbook.block import Block
from ansible.playbook.included_file import IncludedFile
from ansible.playbook.task import Task
from ansible.plugins.loader import init_plugin_loader
from ansible.vars.manager import VariableManager

from .c11 import resolve
from .dbg import drain, new_debugger, one, req
from .strat import World

TASK, BLOCK = 1, 0


class Writer:
    """Writes files and knows where their tasks and blocks begin."""

    def __init__(self) -> None:
        self.files: dict = {}
        self.entries: dict = {}  # path -> [(line, kind)]
        self.count = 0
        self.tags: list = []  # what is in it

    def begin(self, path: str, header: str = "---") -> str:
        self.files[path] = [header]
        self.entries[path] = []
        return path

    def line(self, path: str, indent: int, text: str, kind: int | None = None) -> None:
        self.files[path].append(" " * indent + text)
        if kind is not None:
            self.entries[path].append((len(self.files[path]), kind))

    def unique(self, stem: str) -> str:
        self.count += 1
        return f"{stem}{self.count}"

    def plain(self, path: str, indent: int, gap: bool = False) -> None:
        if gap:
            self.line(path, 0, "# comment")
        self.line(path, indent, f"- name: {self.unique('t')}", TASK)
        self.line(path, indent + 2, "ping:")

    def item(self, path: str, indent: int, depth: int, handler: bool = False, label: str = "") -> None:
        """One entry of a list of tasks."""
        kinds = ["task", "include_tasks", "include_role"]
        kinds += ["block", "import_tasks", "import_role"] if depth else ["plain block"]
        if handler:
            kinds = [k for k in kinds if not k.endswith("_role") and k != "plain block" and (k != "block" or label == "item")]
        kind = choose(label, kinds)
        self.tags.append(kind)
        reach(kind)
        if kind == "task":
            self.plain(path, indent)
        elif kind in ("include_tasks", "include_role"):
            self.line(path, indent, f"- name: {self.unique('t')}", TASK)
            self.line(path, indent + 2, f"{kind}:")
            self.line(path, indent + 4, "file: later.yml" if kind == "include_tasks" else "name: later")
        elif kind == "plain block":
            self.line(path, indent, f"- name: {self.unique('b')}", BLOCK)
            for section in ("block", "rescue", "always"):
                self.line(path, indent + 2, f"{section}:")
                self.plain(path, indent + 2)
        elif kind == "block":
            at = choose(label + ".in", ["block"] if handler else ["block", "rescue", "always"])
            self.line(path, indent, f"- name: {self.unique('b')}", BLOCK)
            for section in ("block", "rescue", "always"):
                if section == "block" or at == section or (at == "block" and not handler):
                    reach(section)
                    self.line(path, indent + 2, f"{section}:")
                    if at == section:
                        self.item(path, indent + 2, depth - 1, handler, label + "+")
                    else:
                        self.plain(path, indent + 2)
        elif kind == "import_tasks":
            name = self.unique("imported") + ".yml"
            self.line(path, indent, f"- import_tasks: {name}")
            inner = self.begin(os.path.join(os.path.dirname(path), name))
            self.item(inner, 0, depth - 1, handler, label + "+")
            self.plain(inner, 0, gap=True)
        else:
            name = self.unique("role")
            self.line(path, indent, "- import_role:")
            self.line(path, indent + 6, f"name: {name}")
            self.role(name, depth - 1, label + "+")

    def role(self, name: str, depth: int, label: str) -> None:
        """A role with tasks, handlers and a role it depends on; one of them has the further content."""
        at = choose(label + ".at", ["tasks", "handlers", "dependency"])
        reach(at)
        for part in ("tasks", "handlers"):
            p = self.begin(f"roles/{name}/{part}/main.yml")
            if at == part:
                self.item(p, 0, depth, part == "handlers", label)
            self.plain(p, 0, gap=True)
        if at == "dependency":
            self.begin(f"roles/{name}/meta/main.yml", "dependencies:")
            self.line(f"roles/{name}/meta/main.yml", 0, f"- {name}_dep")
            del self.entries[f"roles/{name}/meta/main.yml"]
            for part in ("tasks", "handlers"):
                p = self.begin(f"roles/{name}_dep/{part}/main.yml")
                self.plain(p, 0)

    def later(self) -> None:
        for p in ("later.yml", "roles/later/tasks/main.yml"):
            if p not in self.files:
                self.begin(p)
                self.plain(p, 0)
                del self.entries[p]


class Loaded:
    """The files on disk, loaded by ansible."""

    cache: dict = {}

    def __init__(self, w: Writer) -> None:
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="a:3 "))
        for name, lines in w.files.items():
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
        self.loader = DataLoader()
        self.vm = VariableManager(self.loader, InventoryManager(self.loader, sources=["h1,"]))
        try:
            self.playbook = Playbook.load(os.path.join(self.dir, "pb.yml"), variable_manager=self.vm, loader=self.loader)
            self.loader.set_basedir(self.dir)  # as when it is run
        except BaseException:
            self.remove()
            raise

    def remove(self) -> None:
        shutil.rmtree(self.dir)


def play(w: Writer, path: str, sections: dict, roles: t.Sequence[str] = ()) -> None:
    w.line(path, 0, f"- name: {w.unique('play')}", TASK)
    w.line(path, 2, "hosts: all")
    if roles:
        w.line(path, 2, "roles:")
        for r in roles:
            w.line(path, 2, f"- {r}")
    for name, content in sections.items():
        w.line(path, 2, f"{name}:")
        content(path)


ready: list = []


def init() -> None:
    if not ready:
        ready.append(1)
        init_plugin_loader()


def lines_of(d: t.Any, w: Writer, base: str, path: str, upto: int) -> None:
    """Asks for a breakpoint at any line of a file."""
    line = integer("line", 0, upto)
    d.process_message(
        req(
            dap.SetBreakpointsRequest,
            5,
            source=dap.Source(path=os.path.join(base, path)),
            breakpoints=[dap.SourceBreakpoint(line=line)],
        )
    )
    resp = one(drain(d), dap.SetBreakpointsResponse, "not exactly one response")
    got = resp.breakpoints[0]
    want = resolve(w.entries.get(path, []), sx.concrete(line))
    compare(got, want)


def compare(got: t.Any, want: tuple) -> None:
    ok, first, last = want
    check(got.verified == ok, "a task cannot have a breakpoint, or another line can")
    if ok:
        check(got.line == first, "a breakpoint is not moved to its task")
        check(got.end_line == last, "the lines of a task are not its own")
        reach("verified")
    else:
        reach("unverified")
    observe(got.verified, got.line, got.end_line)


@harness(
    "C27",
    quick={"depth": 1},
    thorough={"depth": 2},
    expect=["task", "include_tasks", "include_role", "plain block", "block", "rescue", "always", "import_tasks", "import_role", "handlers", "dependency", "second", "imported", "verified", "unverified"],
    bounds="playbooks of one to three plays (one in a file of its own) with one entry in pre_tasks, tasks, post_tasks, handlers, or in a role's tasks or handlers: a task, an include, or a block of tasks, or up to `depth` levels of blocks (with rescue and always), imported files and roles (with handlers and a role they depend on) around it; a breakpoint at every line of every file once the playbook starts",
    stubs="starting the debugger does nothing; the playbook is loaded by Ansible itself",
)
def at_start() -> None:
    init()
    w = Writer()
    main = w.begin("pb.yml")
    at = choose("section", ["pre_tasks", "tasks", "post_tasks", "handlers", "role"])
    where = choose("play", ["first", "second", "imported"])
    reach(where)
    sections: dict = {}
    roles = []
    if at != "role":

        def content(path: str) -> None:
            w.item(path, 2, param("depth"), at == "handlers", "item")
            w.plain(path, 2, gap=True)

        sections = {at: content}
    elif where == "imported":
        sx.stop_path()
    else:
        roles = ["main"]
    if where != "first":
        play(w, main, {"tasks": lambda p: w.plain(p, 2)})
    if where == "imported":
        w.line(main, 0, "- import_playbook: other.yml")
        play(w, w.begin("other.yml"), sections)
        play(w, main, {"handlers": lambda p: w.plain(p, 2)})
    else:
        play(w, main, sections, roles)
        if roles:
            w.role("main", param("depth"), "item")
    w.later()
    target = choose("file", [f for f in w.files if not f.endswith("meta/main.yml")])
    key = repr(w.files)
    loaded = Loaded.cache.get("pb")
    if loaded is None or loaded[0] != key:
        if loaded:
            loaded[1].remove()
            Loaded.cache.clear()
        loaded = (key, Loaded(w))
        Loaded.cache["pb"] = loaded
    files: Loaded = loaded[1]
    d = new_debugger()
    started: list = []
    d.start = lambda **k: started.append(k) or "uds:///x"  # type: ignore[method-assign]
    d.wait_for_config_done = lambda timeout: None  # type: ignore[method-assign]
    cb = callback.CallbackModule()
    cb.get_option = lambda k, hostvars=None: {"mode": "connect", "debug_addr": "x"}.get(k)  # type: ignore[method-assign]
    cb.v2_playbook_on_start(files.playbook)
    check(len(started) == 1, "the debugger is not started")
    lines_of(d, w, files.dir, target, len(w.files[target]) + 2)


def tasks_of(blocks: list) -> t.Iterator[Task]:
    for b in blocks:
        for x in b.block + b.rescue + b.always:
            if isinstance(x, Block):
                yield from tasks_of([x])
            else:
                yield x


@harness(
    "C27",
    quick={"depth": 1},
    thorough={"depth": 2},
    expect=["task", "block", "import_tasks", "import_role", "include_tasks", "include_role", "later", "verified", "unverified", "not-yet", "handler-file"],
    bounds="a file or a role (with handlers and a role it depends on) that a play includes, by itself or out of another included file, with the same contents; breakpoints set before at every line of every file, looked at before and after it is loaded, and for a role when its first task starts",
    stubs="the strategy's condition variable hands control to the modelled client; files and roles are loaded by Ansible itself the way its linear strategy does",
)
def included() -> None:
    init()
    w = Writer()
    main = w.begin("pb.yml")
    how = choose("how", ["include_tasks", "include_role", "handler"])
    handler = how == "handler"
    nested = choose("nested", 2) if not handler else 0
    play(
        w,
        main,
        {
            "handlers" if handler else "tasks": lambda p: (
                w.line(p, 2, "- name: inc", TASK),
                w.line(p, 4, "include_tasks: outer.yml" if nested else "ansible.builtin.include_role:" if how == "include_role" else "ansible.builtin.include_tasks: x.yml"),
                w.line(p, 6, "name: r") if how == "include_role" and not nested else None,
            )
        },
    )
    known = {main: list(w.entries[main])}
    if nested:
        reach("later")
        p = w.begin("outer.yml")
        w.plain(p, 0)
        w.line(p, 0, "- include_role:" if how == "include_role" else "- include_tasks: x.yml", TASK)  # without a name
        if how == "include_role":
            w.line(p, 4, "name: r")
    if how == "include_role":
        w.role("r", param("depth"), "item")
    else:
        p = w.begin("x.yml")
        w.item(p, 0, param("depth"), handler, "item")
        w.plain(p, 0, gap=True)
        if handler:
            reach("handler-file")
    w.later()
    target = choose("file", [f for f in w.files if not f.endswith("meta/main.yml")])
    files = Loaded(w)
    sx.cleanup(files.remove)
    world = World()
    d = world.debugger
    pl = files.playbook.get_plays()[0]
    cbs = callback.register_play_breakpoints
    cbs(d, [pl])
    line = integer("line", 0, len(w.files[target]) + 2)
    resp = world.send(
        dap.SetBreakpointsRequest,
        source=dap.Source(path=os.path.join(files.dir, target)),
        breakpoints=[dap.SourceBreakpoint(line=line)],
    )
    at = sx.concrete(line)
    view = {b.id: b for b in resp.breakpoints}
    (bid,) = view

    def look() -> None:
        world.collect()
        for m in world.sent:
            if isinstance(m, dap.BreakpointEvent):
                check(m.breakpoint.id in view, "an event names a breakpoint that the client does not have")
                view[m.breakpoint.id] = m.breakpoint
        world.sent.clear()
        compare(view[bid], resolve(known.get(target, []), at))

    look()
    reach("not-yet")

    strat = object.__new__(strategy.StrategyModule)
    strat._debug_state = world.state
    strat._loader = files.loader
    strat._variable_manager = files.vm
    strat._tqm = None
    host = Host("h1")
    world.client = lambda: world.send(dap.ContinueRequest, thread_id=world.stop().thread_id)
    iterator = types.SimpleNamespace(_play=pl)

    def run(inc: t.Any) -> list:
        """What the linear strategy does for an include."""
        world.start(host, inc, world.vars_for(host))
        world.end(host, inc)
        if inc.action.endswith("include_role"):
            blocks, _ = inc.copy().get_block_list(play=pl, variable_manager=files.vm, loader=files.loader)
        else:
            name = inc.args["_raw_params"]
            got = IncludedFile(os.path.join(files.dir, name), {}, {}, inc)
            blocks = strat._load_included_file(got, iterator=iterator, is_handler=handler, handle_stats_and_callbacks=False)
        return blocks

    inc = (pl.handlers if handler else pl.tasks)[0].block[0]
    blocks = run(inc)
    if nested:
        known["outer.yml"] = list(w.entries["outer.yml"])
        look()
        first = next(tasks_of(blocks))
        world.start(host, first, world.vars_for(host))
        world.end(host, first)
        blocks = run(blocks[0].block[1])
    if how == "include_role":
        # Each role of the tasks is looked at when it starts.
        look()
        known.update(w.entries)
        for tk in tasks_of(blocks):
            world.start(host, tk, world.vars_for(host))
            if tk.get_path().rpartition(":")[0] == os.path.join(files.dir, target):
                look()
            if not tk.implicit:
                world.end(host, tk)
    known.update(w.entries)
    look()
