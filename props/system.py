"""Debug adapter and playbook process together, with a client on its stdio.

Real code on both sides: start_dap/DAServer, AnsibleDebugger, the callback and
the debug strategy.  Stand-ins: threads (sx/sched.py), sockets (props/net.py),
stdin/stdout, and ansible's own linear strategy, which is replaced by one that
walks through a given list of tasks.
"""

from __future__ import annotations

import atexit
import itertools
import json
import os
import re
import sys
import typing as t

import sx
from sx import check, patch_module
from sx.sched import Sched, install, sched

import ansibug.dap as dap
import ansibug._debug_adapter as adapter
import ansibug._debuggee as debuggee
import ansibug._mp_queue as mp_queue
import ansibug._socket_helper as socket_helper
import ansibug.ansible_collections.ansibug.dap.plugins.callback.debug as callback
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as strategy
from ansible.errors import AnsibleError
from ansible.executor.task_queue_manager import TaskQueueManager
from ansible.executor.task_result import TaskResult
from ansible.inventory.host import Host
from ansible.playbook.block import Block
from ansible.playbook.task import Task

from .net import FakeSocket, Net
from .strat import Ds, LOADER, PATH, VarManager

STUBS = (
    "threads run on a chosen schedule (sx/sched.py); sockets are stand-ins with Linux semantics (props/net.py); "
    "stdin/stdout are queues; ansible's linear strategy is a list of tasks"
)


class Stdin:
    """sys.stdin: what the client has sent."""

    def __init__(self) -> None:
        self.chunks: list[bytes] = []
        self.eof = False
        self.after = 0
        self.buffer = self.raw = self

    def read(self, n: int = -1) -> bytes:
        s = sched()
        s.point("stdin")
        s.wait(lambda: bool(self.chunks) or self.eof, "the client")
        if not self.chunks:
            self.after += 1
            check(self.after < 4, "keeps reading after the end of stdin")
            return b""
        data = self.chunks.pop(0)
        if 0 < n < len(data):
            self.chunks.insert(0, data[n:])
            data = data[:n]
        return data

    read1 = read

    def fileno(self) -> int:
        return 0


class Stdout:
    def __init__(self) -> None:
        self.data = b""
        self.buffer = self

    def write(self, data: bytes) -> int:
        sched().point("stdout")
        self.data += bytes(data)
        return len(data)

    def flush(self) -> None:
        sched().point("flush")

    def fileno(self) -> int:
        return 1


class Done:
    def __init__(self) -> None:
        self.exc: t.Any = None
        self.done = False


class System:
    def __init__(self, delays: int, lines: t.Sequence[str] = (), tasks: t.Any = None) -> None:
        self.s = Sched(delays=delays, lines=lines)
        install()
        self.net = Net()
        self.net.install(socket_helper, mp_queue, adapter, debuggee)
        self.stdin, self.stdout = Stdin(), Stdout()
        patch_module(adapter, sys, stdin=self.stdin, stdout=self.stdout)
        sx.reset_singletons(debuggee.AnsibleDebugger)
        sx.cleanup(lambda: sx.reset_singletons(debuggee.AnsibleDebugger))
        self.seq = itertools.count(1)
        self.seen = 0
        self.msgs: list[dict] = []
        self.requests: list[dict] = []
        self.lines = itertools.count(2, 2)
        self.executed: list[tuple[str, str]] = []
        self.playbook_state = Done()
        self.adapter_state = Done()
        self.displayed: list[str] = []
        self.notes: list[str] = []
        self.vm = VarManager()
        self.exits: list = []
        self.killed: list = []
        old = atexit.register, atexit.unregister
        atexit.register = lambda f, *a, **k: self.exits.append((f, a, k)) or f  # type: ignore[assignment]
        atexit.unregister = self._unregister  # type: ignore[assignment]
        sx.cleanup(lambda: vars(atexit).update(register=old[0], unregister=old[1]))
        self._patch_linear()
        for m in (callback, strategy):
            patch_module(m, m.display, display=lambda msg, *a, **k: self.displayed.append(msg))

    def _unregister(self, func: t.Any) -> None:
        self.exits = [e for e in self.exits if e[0] != func]

    def _exit(self) -> None:
        """The end of the playbook process as the interpreter does it."""
        me = sched().cur
        for th in list(sched().threads):
            if th is not me and th.root == me.name and not th.daemon:
                sched().wait(lambda: th.done, f"the end of {th.name}")
        while self.exits:
            f, a, k = self.exits.pop()
            f(*a, **k)
        self._gone(me.name)

    def kill(self) -> None:
        """The playbook process is killed."""
        self._gone("playbook")

    def _gone(self, name: str) -> None:
        for th in sched().threads:
            if th is not sched().cur and th.root == name and not th.done:
                th.pred, th.deadline = (lambda: False), None
                self.killed.append(th)
        for x in self.net.sockets:
            if x.owner == name and not x.closed:
                x.closed = True
                x._release()

    # ---------------------------------------------------------- playbook

    def _patch_linear(self) -> None:
        base = strategy.StrategyModule.__mro__[1]
        system = self

        def run(this: t.Any, iterator: t.Any, play_context: t.Any) -> int:
            for host, task, result in iterator:
                this._queue_task(host, task, system.vars_for(host), play_context)
                this._process_pending_results(iterator)
            return TaskQueueManager.RUN_OK

        def queue_task(this: t.Any, host: t.Any, task: t.Any, task_vars: t.Any, pc: t.Any) -> None:
            system.executed.append((host.get_name(), task.name))
            system.pending = (host, task)
            sched().point("task")
            if task.name in system.breaks:
                raise AnsibleError("broken")

        def results(this: t.Any, iterator: t.Any, *a: t.Any, **k: t.Any) -> list:
            host, task = system.pending
            return [TaskResult(host, task, dict(system.results.get(task.name, {})), {})]

        for name, f in (("run", run), ("_queue_task", queue_task), ("_process_pending_results", results)):
            old = base.__dict__.get(name)
            setattr(base, name, f)
            sx.cleanup(lambda n=name, o=old: setattr(base, n, o) if o is not None else delattr(base, n))

    pending: t.Any = None
    results: dict = {}
    breaks: tuple = ()

    def vars_for(self, host: Host) -> dict:
        v: dict = {"inventory_hostname": host.get_name()}
        v["vars"] = dict(v)
        v["hostvars"] = {host.get_name(): {"hv": 1}}
        return v

    def task(self, name: str, line: int | None = None) -> Task:
        b = Block()
        b._parent = None
        tk = Task()
        tk._parent = b
        tk.action = tk.resolved_action = "ping"
        tk.name = name
        tk.args = {}
        tk._ds = Ds(PATH, next(self.lines) if line is None else line)
        b.block = [tk]
        return tk

    def start_playbook(self, plays: list, **options: t.Any) -> None:
        """The ansible-playbook process."""
        opts = {
            "mode": "listen",
            "debug_addr": "uds://",
            "use_tls": False,
            "no_wait_for_config_done": False,
            "log_file": None,
            "log_level": "info",
            "log_format": None,
            "tls_server_certfile": None,
            "tls_server_keyfile": None,
            "tls_server_key_password": None,
            "tls_client_ca": None,
            **options,
        }
        cb = callback.CallbackModule()
        cb.get_option = lambda k, hostvars=None: opts[k]  # type: ignore[method-assign]
        self.opts = opts

        class Playbook:
            _file_name = PATH

            def get_plays(self) -> list:
                return []

        strat = object.__new__(strategy.StrategyModule)
        strat._tqm = None
        strat._loader = LOADER
        strat._variable_manager = self.vm
        strat._warning_ctx = None
        st = self.playbook_state

        def run() -> None:
            try:
                cb.v2_playbook_on_start(Playbook())
            except Exception as e:  # ansible reports it and goes on
                st.exc = e
            self.notes.append("started")
            for play in plays:
                sched().point("play")
                for _h, tk, _r in play:
                    debuggee.AnsibleDebugger().register_path_breakpoint(PATH, tk._ds._line_number, 1)
                if strat.run(play, None) & TaskQueueManager.RUN_FAILED_BREAK_PLAY:
                    break
            sched().point("stats")
            cb.v2_playbook_on_stats(None)

        def body() -> None:
            try:
                run()
            except (KeyboardInterrupt, AnsibleError) as e:
                # ansible reports it and ends without its last callback.
                self.notes.append(type(e).__name__)
            self._exit()
            st.done = True

        self.s.spawn(body, "playbook")

    # ------------------------------------------------------------ adapter

    def start_adapter(self, log_file: t.Any = None, log_level: t.Any = "info") -> None:
        st = self.adapter_state

        def body() -> None:
            try:
                adapter.start_dap(log_file, log_level, None)
            except Exception as e:
                st.exc = e
            st.done = True

        self.s.spawn(body, "adapter")

    # ------------------------------------------------------------- client

    def send_raw(self, body: dict, cut: int = 0, ascii: bool = True) -> None:
        data = json.dumps(body, ensure_ascii=ascii).encode()
        data = b"Content-Length: %d\r\n\r\n" % len(data) + data
        self.stdin.chunks += [data[:cut], data[cut:]] if cut else [data]

    def send(self, command: str, **arguments: t.Any) -> int:
        seq = next(self.seq)
        self.requests.append({"seq": seq, "command": command})
        self.send_raw({"seq": seq, "type": "request", "command": command, "arguments": arguments})
        return seq

    def respond(self, request: dict, **body: t.Any) -> None:
        self.send_raw(
            {
                "seq": next(self.seq),
                "type": "response",
                "command": request["command"],
                "request_seq": request["seq"],
                "success": True,
                "body": body,
            }
        )

    def receive(self) -> list[dict]:
        """New messages to the client; checks that the stream is well formed."""
        new = []
        while True:
            rest = self.stdout.data[self.seen :]
            if not rest:
                break
            m = re.match(rb"(?:[A-Za-z-]+: [^\r\n]*\r\n)*?Content-Length: (\d+)\r\n(?:[A-Za-z-]+: [^\r\n]*\r\n)*\r\n", rest)
            check(m is not None, "the bytes sent to the client are not a sequence of frames")
            assert m is not None
            body = rest[m.end() : m.end() + int(m.group(1))]
            check(len(body) == int(m.group(1)), "a frame sent to the client is incomplete")
            try:
                msg = json.loads(body)
            except ValueError:
                check(False, "a frame sent to the client is not JSON")
            self.seen += m.end() + len(body)
            new.append(msg)
            self.msgs.append(msg)
            check(msg["seq"] == len(self.msgs), "messages to the client are not numbered 1, 2, 3, ...")
        return new

    def turn(self, patient: bool = False) -> list[dict]:
        """Lets everything run until it waits for the client."""
        self.s.settle(patient)
        return self.receive()

    def responses(self, seq: int) -> list[dict]:
        return [m for m in self.msgs if m["type"] == "response" and m["request_seq"] == seq]

    def events(self, name: str) -> list[dict]:
        return [m for m in self.msgs if m["type"] == "event" and m["event"] == name]

    def ok(self, seq: int, what: str) -> dict:
        r = self.responses(seq)
        check(len(r) == 1, f"{what} is not answered exactly once: " + self.s.stuck())
        check(r[0]["success"], f"{what} fails: {r[0].get('message')} {r[0].get('body')}"[:400])
        return r[0]

    def attach(self, **arguments: t.Any) -> None:
        """Attach and get to where the client can configure."""
        self.ok_turn("initialize", adapterID="x")
        if not arguments:
            arguments = {"processId": os.getpid()}
        self.ok_turn("attach", **arguments)
        check(len(self.events("initialized")) == 1, "attaching does not lead to one initialized event: " + self.s.stuck())

    def target(self) -> dict:
        return {"processId": os.getpid()}

    def ok_turn(self, command: str, **arguments: t.Any) -> dict:
        seq = self.send(command, **arguments)
        self.turn()
        return self.ok(seq, command)

    def calm(self) -> t.Any:
        """Runs the steps in it on the default schedule."""
        return _Calm(self.s)

    # ------------------------------------------------------------ the end

    def check_ended(self, adapter_too: bool = True) -> None:
        self.turn()
        check(self.playbook_state.done, "the playbook does not end: " + self.s.stuck())
        check(self.playbook_state.exc is None, f"the playbook's debugger fails: {self.playbook_state.exc!r}")
        left = [th.name for th in self.s.threads if not th.done and th is not self.s.main and th.name != "adapter" and th not in self.killed]
        if adapter_too:
            check(self.adapter_state.done, "the debug adapter does not end: " + self.s.stuck())
        check(not left, f"threads are left over: {left} " + self.s.stuck())
        check(not os.path.exists(debuggee.get_pid_info_path(os.getpid())), "the process information file is left behind")
        check(not os.listdir(self.net.dir), f"files are left behind: {os.listdir(self.net.dir)}")
        check(not [x for x in self.net.sockets if not x.closed and (x.key or x.peer)], "a socket is left open")

    def check_stream(self) -> None:
        """What holds for every session."""
        for r in self.requests:
            check(len(self.responses(r["seq"])) <= 1, f"{r['command']} is answered twice")
        check(len(self.events("terminated")) <= 1, "the session is reported as terminated twice")


class _Calm:
    def __init__(self, s: Sched) -> None:
        self.s = s

    def __enter__(self) -> None:
        self.s.frozen = True

    def __exit__(self, *a: t.Any) -> None:
        self.s.frozen = False
