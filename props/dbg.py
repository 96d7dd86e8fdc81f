"""Helpers shared by the harnesses of the debuggee side."""

from __future__ import annotations

import queue
import typing as t

import sx
from sx.sched import Queue

import ansibug.dap as dap
from ansibug._debuggee import AnsibleDebugger


def new_debugger() -> AnsibleDebugger:
    sx.reset_singletons(AnsibleDebugger)
    return AnsibleDebugger()


def drain(d: AnsibleDebugger) -> list:
    """Everything the debuggee has put up for sending, in order."""
    out: list = []
    for v in list(vars(d).values()):
        if isinstance(v, Queue):
            out += v.queue
            v.queue.clear()
        elif isinstance(v, queue.Queue):
            while True:
                try:
                    out.append(v.get_nowait())
                except queue.Empty:
                    break
    return out


def one(msgs: list, kind: type, what: str) -> t.Any:
    got = [m for m in msgs if isinstance(m, kind)]
    sx.check(len(got) == 1, what)
    return got[0]


def req(kind: type, seq: int, **fields: t.Any) -> t.Any:
    m = kind(**fields)
    m.seq = seq
    return m
