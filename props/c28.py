"""Debug console commands."""

from __future__ import annotations

import argparse
import io
import shlex
import typing as t

import sx
from sx import check, choose, harness, observe, param, patch_module, reach, string

from . import c18

from ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils import _repl_util
from ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils._repl_util import (
    RemoveVarCommand,
    ReplCommand,
    SetVarCommand,
    TemplateCommand,
    parse_repl_args,
)


class StringIO:
    """io.StringIO for text that need not be known."""

    def __init__(self, value: t.Any = "") -> None:
        self.value, self.pos = value, 0

    def read(self, n: int = -1) -> t.Any:
        end = len(self.value) if n is None or n < 0 else min(self.pos + n, len(self.value))
        data = self.value[self.pos : end]
        self.pos = max(self.pos, end)
        return data

    def tell(self) -> int:
        return self.pos

    def readline(self) -> t.Any:
        return self.read()


def splitter() -> None:
    sh = sx.instrumented("shlex")
    if sx.symbolic():
        sh.StringIO = StringIO
        patch_module(_repl_util, shlex, shlex=sh.shlex, split=sh.split)
        patch_module(_repl_util, io, StringIO=StringIO)
        old = argparse.ArgumentParser.parse_known_args

        def parse_known_args(self: t.Any, args: t.Any = None, namespace: t.Any = None) -> t.Any:
            return old(self, None if args is None else [sx.concrete(a) for a in args], namespace)

        argparse.ArgumentParser.parse_known_args = parse_known_args  # type: ignore[method-assign]
        sx.cleanup(lambda: setattr(argparse.ArgumentParser, "parse_known_args", old))


COMMANDS = {
    "t": "template",
    "template": "template",
    "so": "set_option",
    "set_option": "set_option",
    "sh": "set_hostvar",
    "set_hostvar": "set_hostvar",
    "ro": "remove_option",
    "remove_option": "remove_option",
}
NAMES = {"n": "n", "a1": "a1", "'x'": "x", '"so"': "so", "'a b'": "a b", "' b '": " b ", "to": "to", "name": "name"}


@harness(
    "C28",
    quick={"len": 4},
    thorough={"len": 5},
    expect=["template", "set_option", "set_hostvar", "remove_option", "quote"],
    bounds="every command and alias; 8 plain and quoted names; every expression of up to `len` characters x, t, o, h, ', \", \\, -, |, space, {, #, \\u00e9 that does not start or end with a space",
    stubs="shlex is instrumented too, reading from a StringIO stand-in; argparse gets each possible value of its arguments",
)
def commands() -> None:
    splitter()
    cmd = choose("command", list(COMMANDS))
    want = COMMANDS[cmd]
    reach(want)
    expr = string("expr", param("len"), "xtoh'\"\\-| {#\u00e9", minlen=1)
    sx.assume(expr[0] != " ")
    if want == "template":
        name = None
        text = cmd + choose("gap", [" ", "  "]) + expr
        if expr == "-h" or expr == "--help":
            sx.stop_path()
    else:
        spelled = choose("name", list(NAMES))
        name = NAMES[spelled]
        text = cmd + " " + spelled + (choose("gap", [" ", "  "]) + expr if want != "remove_option" else "")
    if sx.any_(*[c in expr for c in "'\"\\"]):
        reach("quote")
    got = parse_repl_args(text)
    check(isinstance(got, ReplCommand), "a valid command is refused")
    assert isinstance(got, ReplCommand)
    check(got.command == want, "another command is run")
    if want == "template":
        check(isinstance(got, TemplateCommand) and got.expression == expr, "another expression is evaluated")
    elif want == "remove_option":
        check(isinstance(got, RemoveVarCommand) and got.name == name, "another option is removed")
    else:
        check(isinstance(got, SetVarCommand) and got.name == name, "another variable is set")
        check(got.expression == expr, "a variable is set to another expression")
    observe(want, name)


@harness(
    "C28",
    quick={"len": 3},
    thorough={"len": 4},
    expect=["command", "message"],
    bounds="every text of up to `len` characters t, s, o, r, h, n, ', \", \\, -, space, #, options in front of the command aside",
    stubs="shlex is instrumented too, reading from a StringIO stand-in; argparse gets each possible value of its arguments",
)
def any_text() -> None:
    splitter()
    text = string("text", param("len"), "tsorhn'\"\\- #")
    got = parse_repl_args(text)
    if isinstance(got, ReplCommand):
        reach("command")
        words = text.split()
        word = words[0].replace("'", "").replace('"', "").replace("\\", "")
        # What an unknown option in front of the command does is up to argparse.
        if not word.startswith("-"):
            check(COMMANDS.get(word) == got.command, "a text that is no command is run as one")
    else:
        reach("message")
        check(isinstance(got, str) and len(got) > 0, "nothing is shown for a text that is no command")
    observe(isinstance(got, str))


@harness(
    "C28",
    quick={"cmds": 2, "exprs": 2},
    thorough={"cmds": 3, "exprs": 2},
    expect=["eval", "removed", "sh"],
    bounds="every sequence of 1..cmds console commands (all commands, long and short names; first `exprs` of 17 expressions, all 17 for a single command, 8 for the first of several) sent before or after the client asks for the scopes of the frame",
    stubs="the strategy's condition variable hands control to the modelled client; the variable manager records; host variables are a plain dict",
)
def before_scopes() -> None:
    def do(s: c18.Session) -> None:
        n = choose("n", list(range(1, param("cmds") + 1)))
        asked = choose("scopes before", n + 1)
        for i in range(n):
            if i == asked:
                s.rescope()
            cmd = c18.REPL[choose(f"cmd{i}", len(c18.REPL))]
            expr = c18.EXPRS[choose(f"expr{i}", c18.exprs(i, n))]
            s.repl(cmd, expr, "repl")

    c18.run(do, rescope=False)
