"""Logging."""

from __future__ import annotations

import contextlib
import io
import json
import logging
import os
import pathlib
import re
import shutil
import sys
import tempfile
import typing as t

import sx
from sx import check, choose, harness, integer, observe, param, reach
from ansible.inventory.host import Host

from ansibug import _logging

from .strat import PATH
from .system import STUBS, System

LEVELS: dict = {"debug": 10, "info": 20, "warning": 30, "error": 40}
TEXTS: list = ["x", "\u00e9", "a\u65e5\u672c", "\U0001f600", "100 % %s %d", "{x}", "\\", "\u2028"]


class Logs:
    """A folder for log files; undoes what is configured."""

    def __init__(self) -> None:
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="verif-log-"))
        self.logger = logging.getLogger("ansibug")
        self.saved = self.logger.level, list(self.logger.handlers), self.logger.propagate, self.logger.disabled
        root = logging.getLogger()
        self.root = root.level, list(root.handlers)
        self.logger.handlers = []
        self.off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        sx.cleanup(self.undo)

    def undo(self) -> None:
        logging.disable(self.off)
        for h in self.logger.handlers:
            h.close()
        self.logger.level, self.logger.handlers, self.logger.propagate, self.logger.disabled = self.saved[0], self.saved[1], self.saved[2], self.saved[3]
        root = logging.getLogger()
        root.setLevel(self.root[0])
        root.handlers = self.root[1]
        self.logger.manager._clear_cache()  # type: ignore[attr-defined]
        shutil.rmtree(self.dir, ignore_errors=True)

    def file(self, name: str) -> pathlib.Path:
        return self.dir / name

    def read(self, name: str) -> str:
        for h in self.logger.handlers:
            h.flush()
        path = self.file(name)
        data = path.read_bytes() if path.exists() else b""
        try:
            return data.decode("utf-8")
        except ValueError:
            check(False, "a log file is not UTF-8")
        return ""


@harness(
    "C31",
    quick={"n": 1},
    thorough={"n": 2},
    expect=[*LEVELS, "written", "left out", "format", "appended"],
    bounds="every level; every sequence of `n` messages, by one of 3 loggers of ansibug or by another one, either at any level number from 1 to 59 or with one of 8 texts at a multiple of 10; with and without a format, a log file that exists or not",
    stubs="none",
)
def levels() -> None:
    logs = Logs()
    level = choose("level", list(LEVELS))
    reach(level)
    fmt = choose("format", [None, "%(levelno)d|%(name)s|%(message)s|"])
    if choose("exists", 2):
        logs.file("log").write_text("before\n")
        want = "before\n"
        reach("appended")
    else:
        want = ""
    out, err = io.StringIO(), io.StringIO()
    if fmt:
        reach("format")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        _logging.configure_file_logging(str(logs.file("log")), level, fmt)
        for i in range(param("n")):
            name = choose(f"logger{i}", ["ansibug", "ansibug.strategy", "ansibug._mp_queue", "ansible"])
            text, no = "x", integer(f"no{i}", 1, 59)
            if choose(f"any text{i}", 2):
                text = choose(f"text{i}", TEXTS)
                sx.assume(no % 10 == 0)
            shown = bool(no >= LEVELS[level]) and name != "ansible"
            no = sx.concrete(no)
            logging.getLogger(name).log(no, "%s", text)
            if shown:
                reach("written")
                want += f"{no}|{name}|{text}|\n" if fmt else f"<{name}|{text}>\n"
            else:
                reach("left out")
    got = logs.read("log")
    if not fmt:
        got = re.sub(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ \| (\S+) \| [^|]*\.py:\d+ \S+\(\) (.*)$", r"<\1|\2>", got, flags=re.M)
    check(got == want, f"the log file has other messages: {got!r} instead of {want!r}")
    check(not out.getvalue(), "log messages go to the client")
    observe(level)


@harness(
    "C31",
    quick={"texts": 3, "levels": ["debug"], "cuts": "text"},
    thorough={"texts": 8, "levels": ["debug", "info", "error", None], "cuts": "all"},
    expect=["debug", "answered", "refused"],
    bounds="an attached playbook, both sides logging at a level, that stops at a breakpoint; an evaluate or setVariable request with one of `texts` texts, and its bytes cut anywhere (quick: in or next to the text)",
    stubs=STUBS,
)
def session() -> None:
    logs = Logs()
    sy = System(0)
    h1 = Host("h1")
    a, b = sy.task("a"), sy.task("b")
    level = choose("level", param("levels"))
    reach(str(level))
    text = TEXTS[1 + choose("text", param("texts"))] if param("texts") < 8 else choose("text", TEXTS)
    files = [str(logs.file(n)) if level else None for n in ("playbook", "adapter")]
    with sy.calm():
        sy.start_playbook([[(h1, a, {}), (h1, b, {})]], log_file=files[0], log_level=level)
        sy.turn()
        sy.start_adapter(pathlib.Path(files[1]) if files[1] else None, level or "info")
        sy.attach()
        sy.ok_turn("setBreakpoints", source={"path": PATH}, breakpoints=[{"line": a._ds._line_number}])
        sy.ok_turn("configurationDone")
        check(len(sy.events("stopped")) == 1, "a breakpoint does not stop the playbook")
        tid = sy.events("stopped")[0]["body"]["threadId"]
        frame = sy.ok_turn("stackTrace", threadId=tid)["body"]["stackFrames"][0]["id"]
    what = choose("request", ["evaluate", "unknown frame", "setVariable"])
    seq = next(sy.seq)
    quoted = repr(text)
    if what == "setVariable":
        body: dict = {"command": "setVariable", "arguments": {"variablesReference": 10**6, "name": text, "value": quoted}}
    else:
        body = {"command": "evaluate", "arguments": {"expression": quoted, "context": "repl", "frameId": frame if what == "evaluate" else 10**6}}
    body = {"seq": seq, "type": "request", **body}
    total = len(json.dumps(body, ensure_ascii=False).encode())
    # The frame is cut somewhere, also inside of a character.
    at = json.dumps(body, ensure_ascii=False).index(text[:1] if text[:1] != "\\" else "\\\\") + 20
    cut = integer("cut", 1, total + 20) if param("cuts") == "all" else integer("cut", at - 2, at + 12)
    cut = sx.concrete(cut)
    sy.requests.append({"seq": seq, "command": body["command"]})
    sy.send_raw(body, cut=cut, ascii=False)
    sy.turn()
    r = sy.responses(seq)
    check(len(r) == 1, f"a request is answered {len(r)} times with logging: " + sy.s.stuck())
    if what == "evaluate":
        reach("answered")
        check(r[0]["success"] and r[0]["body"]["result"] == repr(text), f"a request is answered in another way with logging: {r[0]}")
    else:
        reach("refused")
        check(not r[0]["success"], "a request that fails is answered in another way with logging")
    sy.ok_turn("continue", threadId=tid)
    end = sy.send("disconnect")
    sy.turn()
    sy.ok(end, "disconnect")
    sy.check_ended()
    check(sy.adapter_state.exc is None, f"the debug adapter fails: {sy.adapter_state.exc!r}")
    check(sy.executed == [("h1", "a"), ("h1", "b")], "the playbook runs in another way with logging")
    sy.check_stream()
    for name in ("playbook", "adapter"):
        got = logs.read(name)
        check(bool(got) == (level in ("debug", "info") or (bool(level) and what != "evaluate")), f"what is logged at this level: {level} {what} {got[-200:]!r}")
    observe(what)
