"""A playbook run as the debug strategy sees it, with a client attached.

Tasks, blocks, hosts and results are ansible's own objects.  The only stand-in
is the condition variable of the strategy plugin: waiting on it lets the
harness act as the client until the strategy's own predicate lets go.
"""

from __future__ import annotations

import itertools
import queue
import threading
import typing as t

import sx
from sx import check, patch_module

import ansibug.dap as dap
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as strategy
from ansible.executor.task_result import TaskResult
from ansible.inventory.host import Host
from ansible.parsing.dataloader import DataLoader
from ansible.playbook.block import Block
from ansible.playbook.task import Task

from .dbg import drain, new_debugger, req

PATH = "/play/main.yml"
LOADER = DataLoader()


class Ds:
    def __init__(self, path: str, line: int) -> None:
        self._data_source = path
        self._line_number = line


class ClientCondition:
    """threading.Condition whose wait hands control to the client."""

    world: t.Any = None

    def __init__(self, lock: t.Any = None) -> None:
        self._depth = 0

    def acquire(self, *a: t.Any, **k: t.Any) -> bool:
        self._depth += 1
        return True

    def release(self) -> None:
        self._depth -= 1

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: t.Any) -> None:
        self.release()

    def wait(self, timeout: t.Any = None) -> bool:
        check(self._depth > 0, "waits without holding the lock")
        depth, self._depth = self._depth, 0
        try:
            ClientCondition.world.client_turn()
        finally:
            self._depth = depth
        return True

    def wait_for(self, predicate: t.Callable, timeout: t.Any = None) -> t.Any:
        while not predicate():
            self.wait()
        return True

    def notify(self, n: int = 1) -> None:
        pass

    def notify_all(self) -> None:
        pass


class VarManager:
    """Records what is persisted for a host."""

    def __init__(self) -> None:
        self.saved: list = []

    def set_host_variable(self, host: t.Any, name: t.Any, value: t.Any) -> None:
        self.saved.append((str(host), name, value))


class Role:
    """What the strategy asks an included role for."""

    def get_name(self, include_role_fqcn: bool = True) -> str:
        return "role"

    def get_task_blocks(self) -> list:
        return []

    def get_handler_blocks(self, play: t.Any, dep_chain: t.Any = None) -> list:
        return []


ROLE = Role()


class World:
    def __init__(self, client: t.Callable[[], None] | None = None) -> None:
        patch_module(strategy, threading, Condition=ClientCondition)
        ClientCondition.world = self
        self.debugger = new_debugger()
        self.vm = VarManager()
        self.state = strategy.AnsibleDebugState(self.debugger, LOADER, self.vm)  # type: ignore[arg-type]
        cm = self.debugger.with_strategy(self.state)
        cm.__enter__()
        sx.cleanup(lambda: cm.__exit__(None, None, None))
        self.client = client
        self.waits = 0
        self.lines = itertools.count(2, 2)
        self.seq = itertools.count(50)
        self.root = self.block(None)
        self.sent: list = []  # everything, in order
        self.turn_msgs: list = []

    # -- playbook content
    def block(self, parent: t.Any, **sections: t.Any) -> Block:
        b = Block()
        b._parent = parent
        for k, v in sections.items():
            setattr(b, k, v)
        return b

    def task(self, parent: Block, name: str = "", action: str = "ping", line: int | None = None, path: str = PATH, args: t.Any = None) -> Task:
        tk = Task()
        tk._parent = parent
        tk.action = action
        tk.resolved_action = action
        tk.name = name
        tk.args = {} if args is None else args
        tk._ds = Ds(path, next(self.lines) if line is None else line)
        return tk

    def host(self, name: str) -> Host:
        h = Host(name)
        h.address = "192.0.2." + name[-1:]  # not what the client knows it by
        return h

    def vars_for(self, host: Host, **more: t.Any) -> dict:
        v: dict = {"inventory_hostname": host.get_name(), **more}
        v["vars"] = dict(v)
        v["hostvars"] = {host.get_name(): {"hv": 1}}
        return v

    # -- strategy side
    def start(self, host: Host, task: Task, task_vars: t.Any = None) -> None:
        self.turn_msgs = []
        self.waits = 0
        self.state.start_task(host, task, self.vars_for(host) if task_vars is None else task_vars)
        self.collect()

    def end(self, host: Host, task: Task, result: t.Any = None, fields: t.Any = None) -> None:
        self.turn_msgs = []
        self.waits = 0
        self.state.end_task(TaskResult(host, task, {} if result is None else result, fields))
        self.collect()

    def collect(self) -> list:
        got = drain(self.debugger)
        self.sent += got
        self.turn_msgs += got
        return got

    # -- client side
    def client_turn(self) -> None:
        self.waits += 1
        check(self.client is not None, "stops although nothing asks for it")
        check(self.waits < 20, "stays stopped although the client resumed it")
        self.collect()
        assert self.client is not None
        self.client()

    def send(self, kind: type, **fields: t.Any) -> t.Any:
        """A client request; its response if it has one, checked."""
        seq = next(self.seq)
        before = len(self.sent)
        self.debugger.process_message(req(kind, seq, **fields))
        self.collect()
        got = [m for m in self.sent[before:] if isinstance(m, dap.Response)]
        check(len(got) == 1, f"{kind.__name__} is not answered exactly once")
        check(got[0].request_seq == seq, f"{kind.__name__} is answered for another request")
        check(got[0].success, f"{kind.__name__} fails")
        return got[0]

    def tid(self, host: Host) -> int:
        """The thread id that the client sees for a host."""
        resp = self.send(dap.ThreadsRequest)
        got = [th.id for th in resp.threads if th.name == host.get_name()]
        check(len(got) == 1, "host does not have exactly one thread")
        return got[0]

    def stop(self) -> t.Any:
        """The stopped event that this turn began with."""
        got = [m for m in self.turn_msgs if isinstance(m, dap.StoppedEvent)]
        check(len(got) == 1, "waits for the client without exactly one stopped event")
        return got[0]

    def frames(self, tid: int) -> list:
        resp = self.send(dap.StackTraceRequest, thread_id=tid)
        check(resp.total_frames == len(resp.stack_frames), "total frames is not the number of frames")
        return resp.stack_frames


def send_any(w: World, kind: type, **fields: t.Any) -> t.Any:
    """Like World.send, but failures come back as the error response."""
    from ansibug._debuggee import DAProtocol

    seq = next(w.seq)
    before = len(w.sent)
    DAProtocol(w.debugger).on_msg_received(req(kind, seq, **fields))
    w.collect()
    got = [m for m in w.sent[before:] if isinstance(m, dap.Response)]
    check(len(got) == 1, f"{kind.__name__} is not answered exactly once")
    check(got[0].request_seq == seq, f"{kind.__name__} is answered for another request")
    return got[0]


def is_container(v: t.Any) -> bool:
    return isinstance(v, (dict, list, tuple))


def type_name(v: t.Any) -> str:
    for c, n in ((str, "str"), (bool, "bool"), (int, "int"), (float, "float"), (tuple, "tuple"), (dict, "dict"), (list, "list")):
        if isinstance(v, c):
            return n
    return type(v).__name__


def children(v: t.Any) -> list:
    if isinstance(v, dict):
        return [(str(k), x) for k, x in v.items()]
    return [(str(k), x) for k, x in enumerate(v)]
