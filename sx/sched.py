"""Threads of the code under test, run one at a time on a chosen schedule.

Every logical thread is an OS thread, but only the one holding the baton runs.
The stand-ins for threading, queue, select and sockets give the scheduler the
chance to move the baton; with `lines`, so does every statement of the named
source files.  The default schedule is deterministic (run until blocked, then
the next thread in order of creation); every departure from it is a choice
variable, and at most `delays` departures are made on a path.
"""

from __future__ import annotations

import _thread
import ast
import gc
import queue as real_queue
import sys
import threading as real_threading
import types
import typing as t

import sx

from . import core


class Kill(core.SxSignal):
    """Unwinds a thread that is left over at the end of a path."""


class Logical:
    def __init__(self, name: str) -> None:
        self.name = name
        self.sem = _thread.allocate_lock()  # the baton: free when this thread may run
        self.sem.acquire()
        self.done = False
        self.pred: t.Callable[[], bool] | None = None
        self.what = ""
        self.idle = False
        self.patient = False
        self.deadline: float | None = None
        self.fired = False
        self.real: t.Any = None
        self.parent: Logical | None = None
        self.daemon = False
        self.interrupt: BaseException | None = None

    @property
    def root(self) -> str:
        """The thread that the test started."""
        th = self
        while th.parent is not None and th.parent.parent is not None:
            th = th.parent
        return th.name


_STMTS: dict[str, dict[int, int]] = {}


def _local(n: ast.stmt) -> bool:
    """Another thread running before it is the same as after it."""
    if isinstance(n, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Try)):
        return True
    if isinstance(n, ast.Expr):
        v = n.value
        return isinstance(v, ast.Constant) or (
            isinstance(v, ast.Call)
            and isinstance(v.func, ast.Attribute)
            and isinstance(v.func.value, ast.Name)
            and v.func.value.id == "log"
        )
    if isinstance(n, (ast.Return, ast.Assign, ast.If)):
        x = n.test if isinstance(n, ast.If) else n.value
        if isinstance(n, ast.Assign) and not all(isinstance(t, ast.Name) for t in n.targets):
            return False
        return x is None or all(
            isinstance(y, (ast.Name, ast.Constant, ast.expr_context, ast.BoolOp, ast.boolop, ast.UnaryOp, ast.unaryop))
            for y in ast.walk(x)
        )
    return False


def _stmts(filename: str) -> dict[int, int]:
    """Line -> first line of the innermost statement there (0: not code)."""
    m = _STMTS.get(filename)
    if m is None:
        m = {}
        with open(filename) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.stmt):
                first = 0 if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) or _local(n) else n.lineno
                for line in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                    m[line] = first
        _STMTS[filename] = m
    return m


# ----------------------------------------------------------- statements

TOOL = 4
MON = sys.monitoring
_CODES: dict[tuple, list] = {}
_last: dict[int, int] = {}


def _codes(files: tuple) -> list:
    """The code objects of the named files."""
    found = _CODES.get(files)
    if found is None:
        found = []
        for f in gc.get_objects():
            if type(f) is types.FunctionType and f.__code__.co_filename.endswith(files):
                todo = [f.__code__]
                while todo:
                    c = todo.pop()
                    if c not in found:
                        found.append(c)
                    todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        found = [(c, _stmts(c.co_filename)) for c in found]
        _CODES[files] = found
    return found


def _on_start(code: t.Any, offset: int) -> None:
    _last[id(sys._getframe(1))] = 0


def _on_line(code: t.Any, line: int) -> None:
    s = _STMTS[code.co_filename].get(line, 0)
    if not s:
        return
    k = id(sys._getframe(1))
    if _last.get(k) == s:
        return
    _last[k] = s
    cur = CURRENT
    if cur is not None and cur.left > 0 and not cur.frozen:
        cur.point(f"{code.co_name}:{s}")


def _watch(files: tuple) -> None:
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "sx")
        MON.register_callback(TOOL, MON.events.LINE, _on_line)
        MON.register_callback(TOOL, MON.events.PY_START, _on_start)
    _last.clear()
    if _watched == [files]:
        return
    _unwatch()
    for c, _ in _codes(files):
        MON.set_local_events(TOOL, c, MON.events.LINE | MON.events.PY_START)
    _watched.append(files)


_watched: list = []


def _unwatch() -> None:
    for files in _watched:
        for c, _ in _codes(files):
            MON.set_local_events(TOOL, c, 0)
    _watched.clear()


CURRENT: "Sched | None" = None


def sched() -> "Sched":
    assert CURRENT is not None
    return CURRENT


class Sched:
    def __init__(self, delays: int = 1, lines: t.Sequence[str] = (), points: bool = True) -> None:
        global CURRENT
        self.main = Logical("main")
        self.threads = [self.main]
        self.cur = self.main
        self.left = delays
        self.lines = tuple(lines) if delays else ()
        self.points = points
        self.clock = 0.0
        self.fatal: BaseException | None = None
        self.aborting = False
        self.frozen = False
        self.held: dict[str, str] = {}
        CURRENT = self
        sx.cleanup(self.close)
        if self.lines:
            _watch(self.lines)
        else:
            _unwatch()

    # ------------------------------------------------------------ baton

    def enabled(self, th: Logical) -> bool:
        return not th.done and not th.idle and (th.pred is None or th.interrupt is not None or bool(th.pred()))

    def interrupt(self, name: str, e: BaseException) -> None:
        """The exception comes up in the named thread, wherever it is."""
        for th in self.threads:
            if th.name == name:
                th.interrupt = e

    def _interrupted(self, me: Logical) -> None:
        if me.interrupt is not None:
            e, me.interrupt = me.interrupt, None
            raise e

    def _after(self, me: Logical) -> None:
        if self.aborting and me is not self.main:
            raise Kill()
        if me is self.main and self.fatal is not None:
            e, self.fatal = self.fatal, None
            raise e

    def _switch(self, to: Logical) -> None:
        me = self.cur
        if to is me:
            return
        self.cur = to
        to.sem.release()
        me.sem.acquire()
        self._after(me)

    def point(self, tag: str) -> None:
        """Another thread may run here."""
        if self.aborting:
            if self.cur is not self.main:
                raise Kill()
            return
        if self.held and self.held.get(self.cur.name) == tag:
            me = self.cur.name
            self.wait(lambda: me not in self.held, "the test")
        self._interrupted(self.cur)
        if self.left <= 0 or self.frozen:
            return
        others = [th for th in self.threads if th is not self.cur and self.enabled(th)]
        if not others:
            return
        k = sx.choose(f"{self.cur.name}@{tag}", 1 + len(others))
        if k:
            self.left -= 1
            self._switch(others[k - 1])

    def hold(self, name: str, tag: str) -> None:
        """The named thread does not get past the tag until unhold()."""
        self.held[name] = tag

    def unhold(self, name: str) -> None:
        self.held.pop(name, None)

    def _next(self) -> Logical:
        """Who runs when the current thread cannot."""
        i = self.threads.index(self.cur)
        order = self.threads[i + 1 :] + self.threads[: i + 1]
        en = [th for th in order if self.enabled(th)]
        if en:
            if len(en) > 1 and self.left > 0 and not self.frozen:
                k = sx.choose(f"{self.cur.name}!next", len(en))
                if k:
                    self.left -= 1
                    return en[k]
            return en[0]
        timed = sorted((th for th in order if not th.done and th.deadline is not None), key=lambda th: th.deadline)
        idle = [th for th in order if th.idle]
        if idle and not (timed and idle[0].patient):
            return idle[0]
        if timed:
            self.clock = max(self.clock, timed[0].deadline)
            timed[0].fired = True
            return timed[0]
        return self.main  # everything is stuck; main finds its condition false

    def wait(self, pred: t.Callable[[], bool], what: str, timeout: float | None = None) -> bool:
        """Until pred() holds; False when the time is over."""
        me = self.cur
        if self.aborting and me is not self.main:
            raise Kill()
        if pred():
            return True
        me.pred, me.what, me.fired = pred, what, False
        me.deadline = None if timeout is None else self.clock + timeout
        try:
            nxt = self._next()
            if nxt is not me:
                self._switch(nxt)
            if me is self.main and not me.fired and not pred():
                sx.check(False, "deadlock: " + self.stuck())
        finally:
            me.pred = me.deadline = None
        self._interrupted(me)
        return not me.fired

    def stuck(self) -> str:
        return "; ".join(f"{th.name} waits for {th.what}" for th in self.threads if not th.done and th.pred is not None)

    def settle(self, patient: bool = False) -> None:
        """Main: until no other thread can run (patient: nor ever will)."""
        me = self.cur
        assert me is self.main
        me.idle, me.patient = True, patient
        try:
            nxt = self._next()
            if nxt is not me:
                self._switch(nxt)
        finally:
            me.idle = me.patient = False

    # ---------------------------------------------------------- threads

    def spawn(self, func: t.Callable[[], t.Any], name: str) -> Logical:
        th = Logical(name)
        th.parent = self.cur
        th.real = real_threading.Thread(target=self._run, args=(th, func), daemon=True)
        self.threads.append(th)
        th.real.start()
        return th

    def _run(self, th: Logical, func: t.Callable[[], t.Any]) -> None:
        th.sem.acquire()
        try:
            if not self.aborting:
                func()
        except Kill:
            pass
        except BaseException as e:
            if not self.aborting:
                self.fatal = e
        finally:
            th.done = True
            if not self.aborting:
                nxt = self.main
                try:
                    if self.fatal is None:
                        nxt = self._next()
                except BaseException as e:
                    self.fatal = e
                self.cur = nxt
                nxt.sem.release()

    def close(self) -> None:
        global CURRENT
        self.aborting = True
        for th in list(self.threads):
            if th is self.main or th.done:
                continue
            self.cur = th
            th.sem.release()
            th.real.join(5)
        if CURRENT is self:
            CURRENT = None

# ----------------------------------------------------------- primitives


class Lock:
    def __init__(self) -> None:
        self.owner: Logical | None = None
        self.count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        s = sched()
        s.point("acquire")
        if self.owner is not None:
            if not blocking:
                return False
            if not s.wait(lambda: self.owner is None, "a lock", None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = s.cur
        return True

    def release(self) -> None:
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self) -> bool:
        return self.owner is not None

    def mine(self) -> bool:
        return self.owner is sched().cur

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: t.Any) -> None:
        self.release()


class RLock(Lock):
    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        if self.mine():
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self) -> None:
        if not self.mine():
            if sched().aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None


class Condition:
    def __init__(self, lock: t.Any = None) -> None:
        self._lock = lock or RLock()
        self._waiting: list = []

    def acquire(self, *a: t.Any, **k: t.Any) -> bool:
        return self._lock.acquire(*a, **k)

    def release(self) -> None:
        self._lock.release()

    def __enter__(self) -> bool:
        return self._lock.acquire()

    def __exit__(self, *a: t.Any) -> None:
        self._lock.release()

    def wait(self, timeout: float | None = None) -> bool:
        s = sched()
        if not self._lock.mine():
            raise RuntimeError("cannot wait on un-acquired lock")
        count = self._lock.count
        token: list = []
        self._waiting.append(token)
        self._lock.owner = None
        try:
            got = s.wait(lambda: bool(token) and self._lock.owner is None, "a condition", timeout)
            if not got:
                if token not in [x for x in self._waiting if x is token]:
                    pass
                self._waiting = [x for x in self._waiting if x is not token]
                s.wait(lambda: self._lock.owner is None, "a lock")
        except BaseException as e:
            if not isinstance(e, core.SxSignal):
                s.wait(lambda: self._lock.owner is None, "a lock")
            raise
        finally:
            self._lock.owner = s.cur
            self._lock.count = count
        return got

    def wait_for(self, predicate: t.Callable[[], t.Any], timeout: float | None = None) -> t.Any:
        s = sched()
        end = None if timeout is None else s.clock + timeout
        r = predicate()
        while not r:
            if end is not None and s.clock >= end:
                break
            self.wait(None if end is None else end - s.clock)
            r = predicate()
        return r

    def notify(self, n: int = 1) -> None:
        if not self._lock.mine():
            if sched().aborting:
                return
            raise RuntimeError("cannot notify on un-acquired lock")
        for token in self._waiting[:n]:
            token.append(1)
        del self._waiting[:n]

    def notify_all(self) -> None:
        self.notify(len(self._waiting))

    notifyAll = notify_all


class Event:
    def __init__(self) -> None:
        self._flag = False

    def is_set(self) -> bool:
        sched().point("is_set")
        return self._flag

    isSet = is_set

    def set(self) -> None:
        sched().point("set")
        self._flag = True

    def clear(self) -> None:
        sched().point("clear")
        self._flag = False

    def wait(self, timeout: float | None = None) -> bool:
        s = sched()
        s.point("wait")
        s.wait(lambda: self._flag, "an event", timeout)
        return self._flag


class Semaphore:
    def __init__(self, value: int = 1) -> None:
        self._value = value

    def acquire(self, blocking: bool = True, timeout: float | None = None) -> bool:
        s = sched()
        s.point("acquire")
        if self._value <= 0 and (not blocking or not s.wait(lambda: self._value > 0, "a semaphore", timeout)):
            return False
        self._value -= 1
        return True

    def release(self, n: int = 1) -> None:
        self._value += n

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: t.Any) -> None:
        self.release()


class Thread:
    _count = 0

    def __init__(
        self,
        group: t.Any = None,
        target: t.Any = None,
        name: str | None = None,
        args: t.Any = (),
        kwargs: t.Any = None,
        *,
        daemon: bool | None = None,
    ) -> None:
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Thread"
        self.daemon = sched().cur.daemon if daemon is None else bool(daemon)
        self._th: Logical | None = None

    @property
    def ident(self) -> t.Any:
        return None if self._th is None else sched().threads.index(self._th)

    native_id = ident

    def run(self) -> None:
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self) -> None:
        if self._th is not None:
            raise RuntimeError("threads can only be started once")
        s = sched()
        self._th = s.spawn(self.run, self.name)
        self._th.daemon = self.daemon
        s.point("start")

    def is_alive(self) -> bool:
        return self._th is not None and not self._th.done

    def join(self, timeout: float | None = None) -> None:
        s = sched()
        if self._th is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._th is s.cur:
            raise RuntimeError("cannot join current thread")
        s.point("join")
        th = self._th
        s.wait(lambda: th.done, f"the end of {self.name}", timeout)


class CurrentThread:
    def __init__(self, th: Logical) -> None:
        self._th = th
        self.name = th.name
        self.daemon = False

    @property
    def ident(self) -> int:
        return sched().threads.index(self._th)

    def __eq__(self, o: object) -> bool:
        return getattr(o, "_th", None) is self._th

    def __hash__(self) -> int:
        return id(self._th)


class Queue:
    def __class_getitem__(cls, item: t.Any) -> t.Any:
        return cls

    def __init__(self, maxsize: int = 0) -> None:
        self.maxsize = maxsize
        self.queue: list = []

    def put(self, item: t.Any, block: bool = True, timeout: float | None = None) -> None:
        s = sched()
        s.point("put")
        if self.maxsize > 0 and len(self.queue) >= self.maxsize:
            if not block or not s.wait(lambda: len(self.queue) < self.maxsize, "room in a queue", timeout):
                raise real_queue.Full
        self.queue.append(item)

    def get(self, block: bool = True, timeout: float | None = None) -> t.Any:
        s = sched()
        s.point("get")
        if not self.queue and (not block or not s.wait(lambda: bool(self.queue), "a queued item", timeout)):
            raise real_queue.Empty
        return self.queue.pop(0)

    def put_nowait(self, item: t.Any) -> None:
        self.put(item, False)

    def get_nowait(self) -> t.Any:
        return self.get(False)

    def empty(self) -> bool:
        return not self.queue

    def full(self) -> bool:
        return 0 < self.maxsize <= len(self.queue)

    def qsize(self) -> int:
        return len(self.queue)

    def task_done(self) -> None:
        pass


THREADING = {
    "Lock": Lock,
    "RLock": RLock,
    "Condition": Condition,
    "Event": Event,
    "Semaphore": Semaphore,
    "BoundedSemaphore": Semaphore,
    "Thread": Thread,
    "current_thread": lambda: CurrentThread(sched().cur),
    "get_ident": lambda: sched().threads.index(sched().cur),
}
QUEUE = {"Queue": Queue, "SimpleQueue": Queue}


def sleep(seconds: float) -> None:
    s = sched()
    s.point("sleep")
    s.wait(lambda: False, "time to pass", seconds)


def _standin(v: t.Any) -> t.Any:
    """For a primitive that was made when its module was imported."""
    for real, new in (
        (type(real_threading.Lock()), Lock),
        (type(real_threading.RLock()), RLock),
        (real_threading.Condition, Condition),
        (real_threading.Event, Event),
        (real_queue.Queue, Queue),
        (real_queue.SimpleQueue, Queue),
    ):
        if type(v) is real:
            return new()
    return None


def install(prefix: str = "ansibug") -> None:
    """Gives the loaded modules of the code under test the stand-ins."""
    import time

    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        sx.patch_module(mod, real_threading, **THREADING)
        sx.patch_module(mod, real_queue, **QUEUE)
        sx.patch_module(mod, time, sleep=sleep, monotonic=lambda: sched().clock, time=lambda: sched().clock)
        holders = [mod] + [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name]
        for h in holders:
            for k, v in list(vars(h).items()):
                new = _standin(v)
                if new is not None:
                    setattr(h, k, new)
                    sx.cleanup(lambda h=h, k=k, v=v: setattr(h, k, v))
