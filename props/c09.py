"""Attaching to and launching playbooks as the client asks."""

from __future__ import annotations

import os
import shlex
import shutil
import subprocess
import sys
import tempfile
import types
import typing as t

import sx
from sx import check, choose, harness, observe, param, patch_module, reach, string

import ansibug.dap as dap
from ansibug import _debug_adapter as adapter
from ansibug import _debuggee as debuggee
from ansibug._socket_helper import CancelledError

TEXT = "a '\"$\\`;\n\u00e9-#"


class Out:
    """What the adapter sends to its client."""

    def __init__(self) -> None:
        self.sent: list = []


def server(temp_dir: t.Any = None) -> tuple[t.Any, list]:
    da = adapter.DAServer(temp_dir)
    sent: list = []

    def send(msg: t.Any) -> int:
        sent.append(msg)
        return 40 + len(sent)

    da.send_to_client = send
    return da, sent


def numbered(msg: t.Any, seq: int) -> t.Any:
    msg.seq = seq
    return msg


class Queue:
    """ServerMPQueue or ClientMPQueue, recording."""

    made: list = []
    outcome: t.Any = None

    def __init__(self, address: t.Any, proto: t.Any, ssl_context: t.Any = None, **k: t.Any) -> None:
        self.asked, self.proto, self.ssl = address, proto, ssl_context
        self.calls: list = []
        self.address = address
        self.stopped = False
        Queue.made.append(self)

    def start(self, timeout: t.Any = 0, cancel_queue: t.Any = None) -> None:
        self.calls.append(("start", timeout, cancel_queue))
        if Queue.outcome:
            raise Queue.outcome

    def send(self, msg: t.Any) -> None:
        self.calls.append(("send", msg))

    def stop(self) -> None:
        self.stopped = True


class Refused(OSError, sx.Injected):
    pass


def queues(addresses: list) -> list:
    Queue.made, Queue.outcome = [], None
    it = iter(addresses)

    class Server(Queue):
        def __init__(self, address: t.Any, proto: t.Any, **k: t.Any) -> None:
            super().__init__(address, proto, **k)
            check(address == "uds://", "a launched playbook does not use a socket of its own")
            self.address = next(it)

    saved = adapter.ServerMPQueue, adapter.ClientMPQueue
    adapter.ServerMPQueue, adapter.ClientMPQueue = Server, Queue  # type: ignore[misc,assignment]

    def undo() -> None:
        adapter.ServerMPQueue, adapter.ClientMPQueue = saved  # type: ignore[misc]

    sx.cleanup(undo)
    return Queue.made


def command(script: t.Any, exe: str) -> t.Any:
    """The last command of the script that starts the interpreter, and what follows it."""
    at = script.rfind(shlex.quote(exe))
    check(at >= 0, "the interpreter is not started")
    return script[script.rfind("\n", 0, at) + 1 :]


def split(args: list) -> list:
    """The words of $@ without quotes."""
    words: list = []
    for arg in args:
        cur: t.Any = None
        for c in arg:
            if sx.any_(c == " ", c == "\n"):
                words += [] if cur is None else [cur]
                cur = None
            else:
                cur = (cur or "") + c
        words += [] if cur is None else [cur]
    return words


def sh_words(text: t.Any) -> list:
    """The words of one simple command as a POSIX shell splits it ("$@" stays as None, $@ as ...)."""
    words: list = []
    cur: t.Any = None
    i = 0
    while i < len(text):
        c = text[i]
        if c == "'":
            j = i + 1
            while text[j] != "'":
                j += 1
            cur = (cur or "") + text[i + 1 : j]
            i = j + 1
        elif c == '"':
            if text[i : i + 4] == '"$@"':
                words.append(None)
                i += 4
                continue
            j = i + 1
            cur = cur or ""
            while text[j] != '"':
                check(text[j] != "$" and text[j] != "`", "the shell expands something in the launch script")
                if text[j] == "\\":
                    j += 1
                cur = cur + text[j]
                j += 1
            i = j + 1
        elif c == "\\":
            cur = (cur or "") + text[i + 1]
            i += 2
        elif c == " " or c == "\t":
            if cur is not None:
                words.append(cur)
            cur = None
            i += 1
        elif c == "\n":
            break
        elif cur is None and (text[i:].rstrip() == "$@" or text[i:].rstrip() == "$*"):
            words.append(...)
            break
        else:
            check(not sx.any_(*[c == x for x in "$`;&|<>()*?[#~"]), "the shell interprets a character in the launch script")
            cur = (cur or "") + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def run_script(path: str, args: list, scratch: str, exe: str, env: dict) -> list:
    """Concrete mode: what /bin/sh starts; the interpreter is a recorder."""
    out = os.path.join(scratch, "out")
    subprocess.run([path] + args, env={**os.environ, "SX_OUT": out}, check=True, timeout=20)
    with open(out, "rb") as f:
        words = f.read().split(b"\0")
    return [c.decode() for c in words[1 : 1 + int(words[0])]]


@harness(
    "C09",
    quick={"len": 2},
    thorough={"len": 3},
    expect=["args", "address", "log", "console", "env", "answered", "ended", "failed"],
    bounds="launch requests with up to 2 arguments, a playbook, a working directory, a variable's value, a log file and the address of the adapter's socket with every text of up to `len` characters a, space, quotes, $, \\, `, ;, newline, \\u00e9, -, #; log levels, consoles, timeouts, path mappings; the playbook connects, ends before or does not connect in time",
    stubs="the sockets of the adapter record; what the launch script starts is read by a model of the shell's quoting, on replay by /bin/sh itself with the interpreter replaced by a recorder; argparse is instrumented too",
)
def launch() -> None:
    scratch = tempfile.mkdtemp(prefix="sx-c09-")
    sx.cleanup(lambda: shutil.rmtree(scratch, ignore_errors=True))
    exe = os.path.join(scratch, "py thon")
    with open(exe, "w") as f:
        f.write('#!/bin/sh\nprintf "%s\\0" $# "$@" >>"$SX_OUT"\n')
    os.chmod(exe, 0o700)
    focus = choose("focus", ["args", "address", "log", "console", "env", "timeout"])
    reach(focus) if focus != "timeout" else None
    addr: t.Any = "uds:///tmp/ansibug-dap-1"
    if focus == "address":
        addr = "uds:///" + string("addr", param("len"), TEXT, minlen=1)
    made = queues([addr, "uds:///tmp/launch-2"])
    if sx.symbolic():
        quoting = sx.instrumented("shlex")
        patch_module(adapter, shlex, quote=quoting.quote)
    patch_module(adapter, sys, executable=exe)
    fd: list = []
    temp = os.path.join(scratch, "t") if choose("temp dir", 2) else None
    os.mkdir(os.path.join(scratch, "t"))
    if temp is None:
        old = tempfile.tempdir
        tempfile.tempdir = scratch
        sx.cleanup(lambda: setattr(tempfile, "tempdir", old))
    text: list = []

    def fdopen(f: int, mode: str = "r", *a: t.Any, **k: t.Any) -> t.Any:
        class Writer:
            def __enter__(self) -> t.Any:
                return self

            def __exit__(self, *a: t.Any) -> None:
                self.close()

            def write(self, s: t.Any) -> None:
                text.append(s)

            def close(self) -> None:
                os.close(f) if f not in fd else None
                fd.append(f)

        return Writer()

    if sx.symbolic():
        patch_module(adapter, os, fdopen=fdopen)
    da, sent = server(temp)
    args: dict = {"playbook": "pb.yml"}
    want_args: list = []
    if focus == "args":
        args["playbook"] = string("playbook", param("len"), TEXT, minlen=1)
        sx.assume(args["playbook"][0] != "-")
        want_args = args["args"] = [string(f"arg{i}", param("len"), TEXT) for i in range(choose("n", 2))] + ["--check"]
    if focus == "log":
        args["logFile"] = string("log", param("len"), TEXT.replace("$", "").replace("\n", ""), minlen=1)
        sx.assume(args["logFile"][0] != "-")
        if choose("level", 2):
            args["logLevel"] = choose("log level", ["debug", "warning", "error", "info"])
    if focus == "env":
        args["env"] = {"A": string("value", param("len"), TEXT), "B": None}
        args["cwd"] = string("cwd", param("len"), TEXT)
    if focus == "console":
        args["console"] = choose("console", ["integratedTerminal", "externalTerminal"])
        args["pathMappings"] = [{"localRoot": string(f"l{i}", 2, "/a"), "remoteRoot": string(f"r{i}", 2, "/a")} for i in range(choose("mappings", 3))]
    if focus == "timeout":
        args["connectTimeout"] = choose("timeout", [0.5, 3, 90, 0])
    da._process_msg(numbered(dap.LaunchRequest(arguments=args), 7))
    check(len(sent) == 1 and isinstance(sent[0], dap.RunInTerminalRequest), "the client is not asked to start the playbook")
    run = sent[0]
    check(len(made) == 2 and not any(q.calls for q in made), "something else happens first")
    debug, early = made
    check(run.kind == {"integratedTerminal": "integrated", "externalTerminal": "external"}[args.get("console", "integratedTerminal")], "another console is used")
    check(run.cwd == args.get("cwd", ""), "another working directory is used")
    check(run.env == args.get("env", {}), "another environment is used")
    check(run.args[1:] == [args["playbook"]] + want_args, "the playbook gets other arguments")
    script = run.args[0]
    check(os.path.dirname(os.path.abspath(script)) == (temp or scratch), "the launch script is in another directory")
    st = os.stat(script)
    check(st.st_mode & 0o777 == 0o700, "the launch script cannot be run, or by others too")
    if sx.symbolic():
        check(len(fd) == 1, "the launch script is left open")
        (body,) = text
        check("$0" in body, "the launch script stays")
        words = sh_words(command(body, exe))
        check(words[0] == exe, "the playbook is started in another way")
        check(words[-1] is None or words[-1] is ..., "the arguments of the launch are lost")
        words = words[1:-1] + (list(run.args[1:]) if words[-1] is None else split(run.args[1:]))
        os.unlink(script)
    else:
        words = run_script(script, list(run.args[1:]), scratch, exe, {})
        check(not os.path.exists(script), "the launch script stays")
    check(words[:2] == ["-m", "ansibug"], "something else is started")
    got = c26_parse(words[2:])
    check(got.action == "connect", "the playbook does not connect to the adapter")
    check(got.addr == debug.address, "the playbook connects elsewhere")
    check(not got.no_wait, "the playbook does not wait for the client's configuration")
    check(got.playbook_args == [args["playbook"]] + want_args, "ansible-playbook gets other arguments")
    if "logFile" in args:
        check(str(got.log_file) == str(debuggee.pathlib.Path(args["logFile"])) if not sx.symbolic() else str(got.log_file) == str(debuggee.pathlib.Path(sx.concrete(args["logFile"]))), "the log is written to another file")
        check(got.log_level == args.get("logLevel", "info"), "the log has another level")
    else:
        check(got.log_file is None, "a log is written without being asked for")
    # The client has started it.
    end = choose("end", ["answered", "ended", "failed"]) if focus in ("console", "timeout") else "answered"
    reach(end)
    if end == "ended":
        Queue.outcome = CancelledError()
    elif end == "failed":
        Queue.outcome = Refused("timed out")
    del sent[:]
    try:
        da._process_msg(numbered(dap.RunInTerminalResponse(request_seq=41), 8))
    except Refused:
        check(end == "failed", "a launch fails")
        check(not any(isinstance(m, dap.LaunchResponse) for m in sent), "a launch that failed succeeds")
        return
    check(end != "failed", "a playbook that did not connect is debugged")
    check(debug.calls[0] == ("start", float(args.get("connectTimeout", 5.0)), early), "the adapter waits in another way")
    check(early.stopped, "a socket is left open")
    if end == "ended":
        check(len(debug.calls) == 1, "a playbook that has ended is sent something")
        check(not any(isinstance(m, dap.LaunchResponse) for m in sent), "a launch that failed succeeds")
        check(any(isinstance(m, dap.TerminatedEvent) for m in sent), "the client is not told that the playbook has ended")
        return
    check([type(m) for m in sent] == [dap.LaunchResponse] and sent[0].request_seq == 7, "a launch is not answered")
    ((kind, cfg),) = debug.calls[1:]
    check([(m.local_root, m.remote_root) for m in cfg.data.path_mappings] == [(m["localRoot"], m["remoteRoot"]) for m in args.get("pathMappings", [])], "path mappings are lost")
    observe(words)


def c26_parse(argv: list) -> t.Any:
    import argparse

    from ansibug import __main__ as cli

    if sx.symbolic():
        ap = sx.instrumented("argparse")
        patch_module(cli, argparse, ArgumentParser=ap.ArgumentParser, REMAINDER=ap.REMAINDER)
    try:
        return cli.parse_args(argv)
    except SystemExit:
        check(False, "ansibug refuses the arguments of a launch")


@harness(
    "C09",
    quick={"len": 3},
    thorough={"len": 5},
    expect=["pid", "address", "tls", "plain", "missing", "nothing", "failed"],
    bounds="attach requests by process and by address, with every address of up to `len` characters, TLS on either side on or off, every TLS option, timeouts, up to 2 path mappings; the process information written by a listening debugger with and without TLS; connections that fail",
    stubs="sockets and the creation of TLS contexts record; files are real, in a scratch directory",
)
def attach() -> None:
    scratch = tempfile.mkdtemp(prefix="sx-c09-")
    sx.cleanup(lambda: shutil.rmtree(scratch, ignore_errors=True))
    old = os.environ.get("TMPDIR")
    os.environ["TMPDIR"] = scratch

    def undo() -> None:
        os.environ.pop("TMPDIR") if old is None else os.environ.__setitem__("TMPDIR", old)

    sx.cleanup(undo)
    made = queues([])
    tls: list = []

    def context(*a: t.Any, **k: t.Any) -> t.Any:
        tls.append((a, k))
        return "context"

    saved = adapter.create_client_tls_context
    adapter.create_client_tls_context = context  # type: ignore[assignment]
    sx.cleanup(lambda: setattr(adapter, "create_client_tls_context", saved))
    da, sent = server()
    by = choose("by", ["pid", "address", "both", "missing", "nothing"])
    focus = choose("focus", ["text", "tls", "rest"])
    args: dict = {}
    addr: t.Any = "uds:///tmp/s"
    if by in ("address", "both"):
        addr = args["address"] = "tcp://" + (string("addr", param("len"), "a.0:[]%\u00e9", minlen=1) if focus == "text" else "h:1")
    asked = choose("use tls", [True, False, None])
    if asked is not None:
        args["useTls"] = asked
    want_tls = bool(asked)
    if by in ("pid", "both", "missing"):
        args["processId"] = pid = choose("pid", [1, 4711])
        addr = "uds:///tmp/" + (sx.concrete(string("path", 2, "a'\"\\\u00e9#")) if focus == "text" else "s")
        want_tls = choose("listener tls", [True, False])
        if by != "missing":
            listening(addr, want_tls, pid)
        elif choose("other", 2):
            listening(addr, want_tls, 47)
    if focus == "tls" and choose("verify", 2):
        args["tlsVerification"] = choose("verification", ["verify", "ignore", "/ca"])
    if focus == "tls" and choose("cert", 2):
        args["tlsCertificate"] = "/cert"
        args["tlsKey"] = choose("key", ["/key", None])
        args["tlsKeyPassword"] = "pw"
    if focus == "rest" and choose("timeout", 2):
        args["connectTimeout"] = choose("seconds", [2, 0.25, 0])
    if focus == "rest" and choose("map", 2):
        args["pathMappings"] = [{"localRoot": f"/l{i}", "remoteRoot": f"/r{i}"} for i in range(2)]
    if focus == "rest" and by not in ("missing", "nothing") and choose("refused", 2):
        Queue.outcome = Refused("refused")
    try:
        da._process_msg(numbered(dap.AttachRequest(arguments=args), 3))
    except ValueError:
        check(by in ("missing", "nothing"), "a valid attach request is refused")
        check(not made and not sent, "a connection is made to another playbook")
        reach(by)
        return
    except Refused:
        check(Queue.outcome is not None, "a connection fails")
        check(not sent, "an attach request that failed succeeds")
        reach("failed")
        return
    check(by not in ("missing", "nothing"), "a connection is made without knowing where to")
    check(Queue.outcome is None, "an attach request that failed succeeds")
    reach("address" if by == "address" else "pid")
    (q,) = made
    check(q.asked == addr, "the adapter connects to another playbook")
    check((q.ssl is not None) == want_tls, "TLS is used if and only if the playbook does not use it")
    if want_tls:
        reach("tls")
        ((a, k),) = tls
        got = {**dict(zip(["verify", "certfile", "keyfile", "password"], a)), **k}
        check(list(got.values())[0] == args.get("tlsVerification", "verify"), "the playbook is verified in another way")
        for n, opt in (("certfile", "tlsCertificate"), ("keyfile", "tlsKey"), ("password", "tlsKeyPassword")):
            check(got.get(n) == args.get(opt), "the adapter proves its identity in another way")
    else:
        reach("plain")
    check(q.calls[0][:2] == ("start", float(args.get("connectTimeout", 5.0))), "the adapter waits in another way")
    check([type(m) for m in sent] == [dap.AttachResponse] and sent[0].request_seq == 3, "attach is not answered")
    ((kind, cfg),) = q.calls[1:]
    check([(m.local_root, m.remote_root) for m in cfg.data.path_mappings] == [(m["localRoot"], m["remoteRoot"]) for m in args.get("pathMappings", [])], "path mappings are lost")
    check(da._debuggee is q, "requests do not go to the playbook")


def listening(addr: str, tls: bool, pid: int) -> None:
    """A playbook that listens on the address."""
    sx.reset_singletons(debuggee.AnsibleDebugger)
    sx.cleanup(lambda: sx.reset_singletons(debuggee.AnsibleDebugger))

    class Listener:
        def __init__(self, **k: t.Any) -> None:
            self.address = addr

    class Thread:
        def __init__(self, **k: t.Any) -> None:
            pass

        def start(self) -> None:
            pass

    saved = debuggee.ServerMPQueue, debuggee.threading, debuggee.os
    debuggee.ServerMPQueue = Listener  # type: ignore[misc,assignment]
    debuggee.threading = sx.Shim(saved[1], Thread=Thread)
    debuggee.os = sx.Shim(os, getpid=lambda: pid)  # type: ignore[assignment]
    try:
        dbg = debuggee.AnsibleDebugger()
        dbg.start("uds://", "listen", ssl_context="ctx" if tls else None, playbook_file=choose("playbook", [None, "/p/\u00e9.yml"]))  # type: ignore[arg-type]
    finally:
        debuggee.ServerMPQueue, debuggee.threading, debuggee.os = saved  # type: ignore[misc]
