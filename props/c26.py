"""From the command line to the debugger of the playbook."""

from __future__ import annotations

import argparse
import os
import posixpath
import subprocess
import sys
import types
import typing as t

import yaml
from ansible.config.manager import ensure_type

import sx
from sx import check, choose, harness, observe, param, patch_module, reach, string

import ansibug
from ansibug import __main__ as cli
from ansibug import _debug_adapter, _exec_playbook
from ansibug.ansible_collections.ansibug.dap.plugins.callback import debug as callback

HOME, AV = "/home/u", "/srv/v"
PATHS = {
    "/l/x.log": "/l/x.log",
    "x.log": None,
    "./d/../x y": None,
    " d/x ": None,
    "~/x": HOME + "/x",
    "$AV/x": AV + "/x",
}


class Exec(Exception, sx.Injected):
    def __init__(self, argv: list, env: dict) -> None:
        self.argv, self.env = argv, env


class Dump(bytes):
    """What `ansible config dump` wrote."""

    value: t.Any

    def decode(self, *a: t.Any, **k: t.Any) -> t.Any:
        return self


def absolute(path: str) -> str:
    known = PATHS.get(path, path)
    return posixpath.normpath(known or posixpath.join(os.getcwd(), path))


def environment(**extra: t.Any) -> dict:
    """Replaces the environment of this process."""
    env = {"HOME": HOME, "AV": AV, "PATH": "/usr/bin:/bin", "ANSIBLE_FORKS": "3", **extra}
    old = dict(os.environ)
    for k in [k for k in os.environ if k.startswith("ANSIBUG_") or k.startswith("ANSIBLE_") or k in ("PYTHONPATH", "COVERAGE_RUN")]:
        del os.environ[k]
    os.environ.update(HOME=HOME, AV=AV)

    def undo() -> None:
        os.environ.clear()
        os.environ.update(old)

    sx.cleanup(undo)
    return env


class Env(dict):
    def __or__(self, other: t.Any) -> t.Any:
        out = Env(self)
        out.update(other)
        return out

    def copy(self) -> "Env":
        return Env(self)


class Launch:
    """Runs the real command line up to the exec of ansible-playbook."""

    def __init__(self, env: dict, callbacks: list, collections: list, order: int = 0) -> None:
        self.environ = Env(env)
        self.runs: list = []
        dump: list = [
            {"name": "CALLBACKS_ENABLED", "value": callbacks, "origin": "default"},
            {"name": "COLLECTIONS_PATHS", "value": collections, "origin": "default"},
            {"name": "DEFAULT_STRATEGY", "value": "free", "origin": "default"},
        ]
        self.dump = [{"GALAXY_SERVERS": {}}, {"name": "AGNOSTIC_BECOME_PROMPT", "value": True}] + dump[order:] + dump[:order]
        if sx.symbolic():
            ap = sx.instrumented("argparse")
            patch_module(cli, argparse, ArgumentParser=ap.ArgumentParser, REMAINDER=ap.REMAINDER)
        patch_module(cli, os, environ=self.environ)
        patch_module(_exec_playbook, os, environ=self.environ, execve=self.execve)
        patch_module(_exec_playbook, subprocess, run=self.run)
        import json

        patch_module(_exec_playbook, json, loads=lambda s: s.value if isinstance(s, Dump) else json.loads(s))

    def execve(self, path: t.Any, argv: t.Any, env: t.Any) -> t.NoReturn:
        check(path == argv[0], "another program is started")
        raise Exec(list(argv), dict(env))

    def run(self, cmd: t.Any, env: t.Any = None, **k: t.Any) -> t.Any:
        self.runs.append((list(cmd), dict(self.environ if env is None else env)))
        out = Dump(b"dump")
        out.value = self.dump
        return types.SimpleNamespace(stdout=out, stderr=b"", returncode=0, args=cmd)

    def main(self, args: list) -> tuple[list, dict]:
        patch_module(cli, sys, argv=["ansibug"] + args)
        try:
            cli.main()
        except Exec as e:
            return e.argv, e.env
        except SystemExit:
            check(False, "a valid command line is refused")
        check(False, "ansible-playbook is not started")
        raise AssertionError


DOC = yaml.safe_load(callback.DOCUMENTATION)["options"]


def option(env: dict, name: str) -> t.Any:
    """The value of a callback option as Ansible reads it from the environment."""
    d = DOC[name]
    val = d.get("default")
    for e in d.get("env", []):
        if e["name"] in env:
            val = env[e["name"]]
    typ = d.get("type", "str")
    if val is not None and typ not in ("str", "string"):
        val = ensure_type(sx.concrete(val), typ)
    if d.get("choices") and val is not None:
        check(any(bool(val == c) for c in d["choices"]), "Ansible refuses an option of the debugger")
    return val


class Debugger:
    """Records what the callback asks for."""

    def __init__(self) -> None:
        self.calls: list = []

    def start(self, addr: t.Any, mode: t.Any, ssl_context: t.Any = None, playbook_file: t.Any = None) -> t.Any:
        self.calls.append(("start", addr, mode, ssl_context, playbook_file))
        return addr

    def wait_for_config_done(self, timeout: t.Any = None) -> None:
        self.calls.append(("wait", timeout))

    def shutdown(self) -> None:
        self.calls.append(("shutdown",))


def playbook(env: dict) -> tuple[list, list, list]:
    """Runs the real callback under an environment."""
    cb = callback.CallbackModule.__new__(callback.CallbackModule)
    dbg = cb._debugger = Debugger()  # type: ignore[assignment]
    tls: list = []
    logs: list = []

    def context(*a: t.Any, **k: t.Any) -> t.Any:
        tls.append((a, k))
        return "context"

    saved = {k: getattr(callback, k) for k in ("register_play_breakpoints", "create_server_tls_context", "configure_file_logging", "display")}
    sx.cleanup(lambda: vars(callback).update(saved))
    callback.register_play_breakpoints = lambda d, plays: dbg.calls.append(("plays", plays))  # type: ignore[assignment]
    callback.create_server_tls_context = context  # type: ignore[assignment]
    callback.configure_file_logging = lambda *a: logs.append(a)  # type: ignore[assignment]
    callback.display = types.SimpleNamespace(display=lambda *a, **k: None)
    cb.get_option = lambda name: option(env, name)  # type: ignore[method-assign]
    cb.v2_playbook_on_start(types.SimpleNamespace(get_plays=lambda: ["play"], _file_name="/p/pb.yml"))
    vars(callback).update(saved)
    return dbg.calls, tls, logs


STUBS = "argparse is instrumented too; the environment, subprocess.run (answers with the dump of a configuration) and os.execve are stand-ins; callback options follow its DOCUMENTATION and Ansible's own type conversion"


@harness(
    "C26",
    quick={"len": 2, "args": 1},
    thorough={"len": 3, "args": 2},
    expect=["listen", "connect", "default", "wait", "tls", "password", "log", "stale"],
    bounds="connect and listen with every address of up to `len` characters after its scheme, up to `args` arguments for ansible-playbook of up to `len` characters -, a, d, r, n, o, =, space after its playbook (ambiguous abbreviations of ansibug's own options aside), every password of up to `len` characters as option or variable, with and without every other option, 5 ways to write a path; started from an environment in which another run has set its options",
    stubs=STUBS,
)
def debugger() -> None:
    action = choose("action", ["listen", "connect"])
    reach(action)
    focus = choose("focus", ["addr", "args", "log", "tls", "stale"])
    env = environment()
    argv: list = [action]
    own: list = []
    addr: t.Any = "uds://"
    if focus == "addr":
        form = choose("form", ["two", "one", "default"] if action == "listen" else ["two", "one"])
    else:
        form = "two"
    if form == "default":
        reach("default")
    else:
        addr = "tcp://x:1"
        if focus == "addr":
            addr = choose("scheme", ["tcp://", "uds:///"]) + string("addr", param("len"), "a:0[].~$% -")
        own.append(["--addr", addr] if form == "two" else ["--addr=" + addr])
    no_wait = choose("no wait", [False, True]) if focus != "tls" else False
    if no_wait:
        own.append(["--no-wait"])
    else:
        reach("wait")
    log = level = None
    if focus == "stale":
        # Another run of ansibug, one with other options, has started this one.
        reach("stale")
        env["ANSIBUG_DEBUG_ADDR"] = string("old addr", param("len"), "a:/")
        env["ANSIBUG_MODE"] = choose("old mode", ["listen", "connect"])
        env["ANSIBUG_NO_WAIT_FOR_CONFIG_DONE"] = choose("old no wait", ["true", "false"])
        env["ANSIBUG_USE_TLS"] = choose("old tls", ["True", "False"])
        if choose("log", [False, True]):
            env["ANSIBUG_LOG_FILE"] = "/old/log"
            env["ANSIBUG_LOG_LEVEL"] = "error"
    if focus == "log" or "ANSIBUG_LOG_FILE" in env:
        log = choose("log file", list(PATHS))
        own.append(["--log-file", log])
        level = choose("log level", ["info", "debug", "warning", "error", None])
        if level:
            own.append(["--log-level", level])
        reach("log")
    use_tls = False
    cert = key = ca = None
    password: t.Any = None
    if focus == "stale" and action == "listen" and choose("tls options", 2):
        use_tls = True
        for k in ("CERTFILE", "KEYFILE", "KEY_PASSWORD"):
            env["ANSIBUG_TLS_SERVER_" + k] = "/old"
        env["ANSIBUG_TLS_CLIENT_CA"] = "/old"
        cert, key, ca, password = "/k/cert", "/k/key", "/k/ca", "pw"
        own += [["--wrap-tls"], ["--tls-cert", cert], ["--tls-key", key], ["--tls-client-ca", ca], ["--tls-key-pass", password]]
    if focus == "tls" and action == "listen":
        use_tls = choose("tls", [True, False])
        if use_tls:
            own.append(["--wrap-tls"])
            reach("tls")
        which = choose("file", ["cert", "key", "ca", "none"])
        path = choose("path", list(PATHS))
        cert = path if which == "cert" else "/k/cert"
        own.append(["--tls-cert", cert])
        if which != "none":
            key = path if which == "key" else "/k/key"
            ca = path if which == "ca" else "/k/ca"
            own += [["--tls-key", key], ["--tls-client-ca", ca]]
        how = choose("password", ["option", "variable", "none"])
        if how != "none":
            reach("password")
            password = string("password", param("len"), "a '\"$\\,\u00e9", minlen=1)
            if how == "option":
                own.append(["--tls-key-pass", password])
            else:
                env["ANSIBUG_TLS_KEY_PASS"] = password
    if choose("reversed", 2):
        own.reverse()
    for o in own:
        argv += o
    rest: list = []
    if focus == "args":
        for i in range(param("args")):
            a = string(f"arg{i}", param("len") + 1, "-adrno= ", minlen=1)
            if len(a) > 1 and a[0] == "-" and a[1] == "-":
                # What several of ansibug's options could be short for.
                sx.assume(sx.all_(a != "--l", a != "--lo", a != "--", a != "--="))
                sx.assume(not sx.any_(*[a.startswith(p + "=") for p in ("--", "--l", "--lo")]))
            rest.append(a)
    got_argv, got_env = Launch(env, ["c"], ["/c"]).main(argv + ["pb.yml"] + rest)
    check(got_argv == [sys.executable, "-m", "ansible", "playbook", "pb.yml"] + rest, "ansible-playbook gets other arguments")
    for k, v in got_env.items():
        check(isinstance(v, str) or type(v).__module__ == "sx.sym", f"{k} is not text")
    calls, tls, logs = playbook(got_env)
    kinds = [c[0] for c in calls]
    check(kinds == ["plays", "start"] + ([] if no_wait else ["wait"]), "the playbook does not wait as asked" if "start" in kinds else "the debugger is not started")
    _, addr2, mode2, ctx2, file2 = calls[1]
    check(addr2 == addr, "the debugger uses another address")
    check(mode2 == action, "the debugger uses another mode")
    check(file2 == "/p/pb.yml", "the debugger gets another playbook")
    check((ctx2 is not None) == use_tls, "the debugger uses TLS if and only if it is not asked for")
    check(no_wait or calls[2][1] is None, "the playbook does not wait until the configuration is done")
    if use_tls:
        ((a, k),) = tls
        names = ["certfile", "keyfile", "password", "ca_trust"]
        got = {**dict(zip(names, a)), **k}
        check(got.get("certfile") == absolute(cert), "another certificate is used")  # type: ignore[arg-type]
        check(got.get("keyfile") == (key and absolute(key)), "another key is used")
        check(got.get("ca_trust") == (ca and absolute(ca)), "clients are verified with another CA")
        check(got.get("password") == password, "another password is used")
    else:
        check(not tls, "TLS is set up without being asked for")
    if log:
        check(len(logs) == 1 and logs[0][0] == absolute(log), "the log is written to another file")
        check(logs[0][1] == (level or "info"), "the log has another level")
    else:
        check(not logs, "a log is written without being asked for")
    observe(addr2, mode2, rest)


OURS = ["ANSIBLE_CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH", "ANSIBLE_STRATEGY", "PYTHONPATH"]


@harness(
    "C26",
    quick={"len": 2, "n": 2},
    thorough={"len": 3, "n": 2},
    expect=["callbacks", "collections", "python path", "variable"],
    bounds="configurations with 0..n enabled callbacks and collection paths named by up to `len` characters, their entries in any order among others; PYTHONPATH absent, empty or with any text of up to `len`+1 characters; another variable with any value of up to `len` characters",
    stubs=STUBS,
)
def configuration() -> None:
    focus = choose("focus", ["callbacks", "collections", "python path", "variable"])
    reach(focus)
    callbacks: list = ["ns.col.cb"]
    collections: list = ["/c"]
    pypath: t.Any = "/q"
    extra: t.Any = "v"
    if focus == "callbacks":
        callbacks = [string(f"cb{i}", param("len"), "ab_.", minlen=1) for i in range(choose("n", param("n") + 1))]
    elif focus == "collections":
        collections = ["/" + string(f"path{i}", param("len"), "a,/ ") for i in range(choose("n", param("n") + 1))]
    elif focus == "python path":
        pypath = string("pypath", param("len") + 1, "/a:") if choose("set", 2) else None
    else:
        extra = string("value", param("len"), "a='\" $\u00e9")
    vars_: dict = {"ANSIBLE_X": extra, "COLLECTIONS": extra}
    if pypath is not None:
        vars_["PYTHONPATH"] = pypath
    env = environment(**vars_)
    run = Launch(env, callbacks, collections, choose("order", 3))
    _, got = run.main([choose("action", ["connect", "listen"]), "--addr", "tcp://h:1", "pb.yml"])
    mine = str(_exec_playbook.pathlib.Path(ansibug.__file__).parent.absolute())
    cbs = got["ANSIBLE_CALLBACKS_ENABLED"].split(",")
    check("ansibug.dap.debug" in cbs, "the debugger's callback is not enabled")
    check([c for c in cbs if c != "ansibug.dap.debug"] == callbacks, "the configured callbacks change")
    paths = got["ANSIBLE_COLLECTIONS_PATH"].split(os.pathsep)
    check(paths[0] == mine, "the debugger's collection is not found first")
    check(paths[1:] == collections, "the configured collection paths change")
    check(got["ANSIBLE_STRATEGY"] == "ansibug.dap.debug", "the debugger's strategy is not used")
    py = got["PYTHONPATH"].split(os.pathsep)
    check(py[0] == os.path.dirname(mine), "the debugger's modules are not found first")
    check(py[1:] == ([] if pypath is None else [p for p in pypath.split(os.pathsep) if p]), "the Python path changes")
    for k, v in env.items():
        if k not in OURS:
            check(k in got and got[k] == v, "another variable changes")
    for k in got:
        check(k in env or k in OURS or k.startswith("ANSIBUG_"), "a variable appears")
    ((cmd, cenv),) = run.runs
    check(cmd[:3] == [sys.executable, "-m", "ansible"] and "config" in cmd, "another configuration is read")
    for k, v in env.items():
        check(k in cenv and cenv[k] == v, "the configuration of another environment is read")
    check(cenv.get("ANSIBLE_VERBOSITY") == "0", "the configuration cannot be read at any verbosity")
    observe(cbs, py[1:])


@harness(
    "C26",
    quick={},
    thorough={},
    expect=["log", "temp"],
    bounds="the dap command with and without a log file (5 ways to write its path, every level) and a directory for launch scripts",
    stubs="argparse is instrumented too; the adapter records how it is made",
)
def adapter() -> None:
    environment()
    log = choose("log file", [None, *PATHS])
    level = choose("log level", [None, "info", "debug", "warning", "error"]) if log else None
    temp = choose("temp", [None, *PATHS])
    own: list = []
    if log:
        own.append(["--log-file", log])
        reach("log")
    if level:
        own.append(["--log-level", level])
    if temp:
        own.append(["--temp-dir", temp])
        reach("temp")
    if choose("reversed", 2):
        own.reverse()
    made: list = []
    logs: list = []

    class Server:
        def __init__(self, temp_dir: t.Any = None) -> None:
            made.append(temp_dir)

        def __enter__(self) -> t.Any:
            return self

        def __exit__(self, *a: t.Any, **k: t.Any) -> None:
            made.append("end")

        def start(self) -> None:
            made.append("start")

    saved = _debug_adapter.DAServer, _debug_adapter.configure_file_logging
    _debug_adapter.DAServer, _debug_adapter.configure_file_logging = Server, lambda *a: logs.append(a)  # type: ignore[assignment,misc]

    def undo() -> None:
        _debug_adapter.DAServer, _debug_adapter.configure_file_logging = saved  # type: ignore[misc]

    sx.cleanup(undo)
    patch_module(cli, sys, argv=["ansibug", "dap"] + [a for o in own for a in o])
    cli.main()
    check(made[1:] == ["start", "end"], "the adapter is not run")
    check((made[0] is None) == (temp is None), "the directory for launch scripts is not used")
    if temp:
        check(absolute_of(str(made[0])) == absolute(temp), "another directory for launch scripts is used")
    if log:
        check([(absolute_of(a[0]), a[1]) for a in logs] == [(absolute(log), level or "info")], "the log is written elsewhere")
    else:
        check(not logs, "a log is written without being asked for")
    observe(len(logs))


def absolute_of(path: str) -> str:
    return posixpath.normpath(posixpath.join(os.getcwd(), path))
