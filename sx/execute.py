"""Runs one harness once and classifies how it ended."""

from __future__ import annotations

import signal
import threading
import time
import traceback
import typing as t

from . import core
from .api import Harness, Injected, canon, realize
from .core import Budget, Inconclusive, Infeasible, PathStop, Violation


class Hang(core.SxSignal):
    pass


def _classify_tb(e: BaseException) -> str:
    """'repo', 'harness' or 'engine': where the exception came from."""
    if isinstance(e, Injected):
        return "repo"
    last = "engine"
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/repo/" in fn or "/ansibug/" in fn:
            last = "repo"
        elif fn.endswith(("/props/net.py", "/sx/sched.py")):
            pass  # what a stand-in raises is what the real thing would
        elif "/props/" in fn:
            last = "harness"
        tb = tb.tb_next
    return last


def _alarm(_s: int, _f: t.Any) -> None:
    raise Hang("the code did not return")


def run_once(h: Harness, c: core.Ctx, hang_s: float) -> dict:
    """Result: {'end': ok|infeasible|violation|error, 'msg', 'kind'}."""
    core.set_ctx(c)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, hang_s)
    res: dict
    try:
        try:
            h.func()
            res = {"end": "ok"}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except PathStop:
        res = {"end": "ok"}
    except Infeasible:
        res = {"end": "infeasible"}
    except Violation as e:
        res = {"end": "violation", "msg": str(e), "kind": "check"}
    except Hang:
        res = {"end": "violation", "msg": "does not terminate", "kind": "hang"}
    except Inconclusive as e:
        res = {"end": "error", "msg": f"{type(e).__name__}: {e}"}
    except Exception as e:
        where = _classify_tb(e)
        text = f"unexpected {type(e).__name__}: {e}"
        if where == "repo":
            res = {
                "end": "violation",
                "msg": text,
                "kind": "exception",
                "tb": traceback.format_exc(limit=-6),
            }
        else:
            res = {"end": "error", "msg": text + "\n" + traceback.format_exc(limit=-8)}
    finally:
        signal.signal(signal.SIGALRM, old)
        for f in reversed(c.cleanups):
            try:
                f()
            except Exception:
                pass
    if c.violation is not None and res["end"] in ("ok", "infeasible", "error"):
        # a check failed but something swallowed the signal
        if not (res["end"] == "error" and "Budget" in res.get("msg", "")):
            res = {"end": "violation", "msg": c.violation, "kind": "check"}
    return res
