"""TLS is never weaker than what was asked for."""

from __future__ import annotations

import os
import pathlib
import socket
import ssl
import typing as t

import sx
from sx import check, choose, harness, observe, param, patch_module, reach, string
from sx.sched import Sched, install, sched

import ansibug.dap as dap
from ansibug import _mp_queue, _socket_helper, _tls
from ansibug._mp_queue import ClientMPQueue, MPProtocol, ServerMPQueue
from ansibug._socket_helper import CancelledError, SocketCancellationToken

from .c06 import Op
from .net import Context, FakeSocket, Net, TLSSocket

STUBS = "threads run on a chosen schedule (sx/sched.py); sockets and TLS are stand-ins (props/net.py)"


class Files:
    """What the file system has, for names that need not be known."""

    def __init__(self, exists: bool, folder: bool) -> None:
        files = self
        self.exists, self.folder = exists, folder
        self.names: dict[str, t.Any] = {}

        class Path:
            def __init__(self, value: t.Any) -> None:
                self.value = value

            def is_dir(self) -> bool:
                return files.exists and files.folder

            def is_file(self) -> bool:
                return files.exists and not files.folder

            def exists(self) -> bool:
                return files.exists

            def absolute(self) -> "Path":
                return self

            resolve = expanduser = absolute

            def __str__(self) -> str:
                token = f"<path {len(files.names)}>"
                files.names[token] = self.value
                return token

            __fspath__ = __str__

        def same(x: t.Any) -> t.Any:
            return x

        p = sx.Shim(
            os.path,
            expandvars=same,
            expanduser=same,
            abspath=same,
            isdir=lambda x: files.exists and files.folder,
            isfile=lambda x: files.exists and not files.folder,
            exists=lambda x: files.exists,
        )
        patch_module(_tls, pathlib, Path=Path)
        patch_module(_tls, os, path=p)
        patch_module(_tls, ssl, create_default_context=lambda purpose=ssl.Purpose.SERVER_AUTH, **k: Context(purpose), SSLContext=Context)

    def real(self, name: t.Any) -> t.Any:
        return self.names[name] if type(name) is str and name in self.names else name


def loaded(ctx: Context, files: Files, path: t.Any) -> None:
    cas = [c for c in ctx.calls if c[0] == "ca"]
    check(len(cas) == 1, "the trusted certificates that were asked for are not loaded")
    _, cafile, capath = cas[0]
    check((capath if files.folder else cafile) is not None, "a CA folder is loaded as a file or the other way around")
    check((cafile if files.folder else capath) is None, "more than the requested CA is loaded")
    check(files.real(capath if files.folder else cafile) == path, "another CA is loaded than asked for")


def identity(ctx: Context, cert: t.Any, key: t.Any, password: t.Any) -> None:
    certs = [c for c in ctx.calls if c[0] == "cert"]
    check(certs == ([("cert", cert, key, password)] if cert else []), "another certificate is used than asked for")


@harness(
    "C25",
    quick={"len": 7},
    thorough={"len": 10},
    expect=["verify", "ignore", "path", "missing", "cert"],
    bounds="every tlsVerification text of up to `len` characters a-z, /, ., I, V and space; with and without a client certificate, key and password; the named path being a file, a folder or missing",
    stubs="ssl contexts and the file system",
)
def client_context() -> None:
    Context.made.clear()
    files = Files(choose("exists", [True, False]), choose("folder", [True, False]))
    verify = string("verification", param("len"), "abcdefghijklmnopqrstuvwxyz/. IV", minlen=1)
    cert = choose("cert", [None, "/c.pem"])
    key, password = choose("key", [None, "/k.pem"]), choose("password", [None, "pw"])
    kind = "verify" if verify == "verify" else "ignore" if verify == "ignore" else "path"
    try:
        ctx: t.Any = _tls.create_client_tls_context(verify, certfile=cert, keyfile=key, password=password)
    except ValueError:
        check(kind == "path" and not files.exists, "a valid verification setting is refused")
        reach("missing")
        return
    reach(kind)
    check(kind != "path" or files.exists, "the server is verified with a CA that does not exist")
    if kind == "ignore":
        check(ctx.verify_mode == ssl.CERT_NONE, "the server is verified although asked not to")
    else:
        check(ctx.verify_mode == ssl.CERT_REQUIRED, "the server's certificate is not verified")
        check(ctx.check_hostname, "the server's host name is not verified")
        if kind == "path":
            loaded(ctx, files, verify)
        else:
            check("system" in ctx.trust and not [c for c in ctx.calls if c[0] == "ca"], "the system's CAs are not what is trusted")
    if cert:
        reach("cert")
    identity(ctx, cert, key, password)
    observe(kind)


@harness(
    "C25",
    quick={"len": 4},
    thorough={"len": 8},
    expect=["no-ca", "ca", "missing"],
    bounds="every client CA text of up to `len` characters a-z, /, ., I, V and space, or none; with and without key and password; the path being a file, a folder or missing",
    stubs="ssl contexts and the file system",
)
def server_context() -> None:
    Context.made.clear()
    files = Files(choose("exists", [True, False]), choose("folder", [True, False]))
    ca = string("ca", param("len"), "abcdefghijklmnopqrstuvwxyz/. IV", minlen=1) if choose("client_ca", 2) else None
    key, password = choose("key", [None, "/k.pem"]), choose("password", [None, "pw"])
    try:
        ctx: t.Any = _tls.create_server_tls_context("/c.pem", keyfile=key, password=password, ca_trust=ca)
    except ValueError:
        check(ca is not None and not files.exists, "a valid setting is refused")
        reach("missing")
        return
    identity(ctx, "/c.pem", key, password)
    if ca is None:
        reach("no-ca")
        return
    reach("ca")
    check(files.exists, "clients are verified with a CA that does not exist")
    check(ctx.verify_mode == ssl.CERT_REQUIRED, "clients do not have to present a certificate")
    loaded(ctx, files, ca)
    check("system" not in ctx.trust, "any public CA can issue client certificates")
    observe(1)


class Proto(MPProtocol):
    def __init__(self) -> None:
        self.got: list = []
        self.closed = 0

    def on_msg_received(self, msg: t.Any) -> None:
        self.got.append(msg)

    def connection_closed(self, exp: t.Any) -> None:
        self.closed += 1


def world(delays: int) -> Net:
    Sched(delays)
    install()
    n = Net()
    n.install(_mp_queue, _socket_helper, _tls)
    return n


def context(server: bool, cert: t.Any = None, trust: t.Sequence[str] = ()) -> Context:
    c = Context(ssl.Purpose.CLIENT_AUTH if server else ssl.Purpose.SERVER_AUTH)
    c.trust = list(trust)
    c.cert = cert
    return c


GOOD = ("client", "clients")
MSG = dap.OutputEvent(category="x", output="secret")


@harness(
    "C25",
    quick={"bad": 1, "delays": 1},
    thorough={"bad": 2, "delays": 1},
    expect=["tls", "plain", "mutual", "silent", "garbage", "gone", "reset", "no-cert", "other-cert", "untrusting"],
    bounds="a listener with TLS, with TLS and client certificates or without TLS; up to `bad` clients that send nothing and go, send garbage, go or reset during the handshake or present no or an untrusted certificate, then a valid one; schedules with up to `delays` departures",
    stubs=STUBS,
)
def listener() -> None:
    n = world(param("delays"))
    mode = choose("listener", ["plain", "tls", "mutual"])
    reach(mode)
    sctx: t.Any = None
    if mode != "plain":
        sctx = context(True, ("127.0.0.1", "servers"), ["clients"])
        if mode == "mutual":
            sctx.verify_mode = ssl.CERT_REQUIRED
    sp = Proto()
    srv = ServerMPQueue("tcp://127.0.0.1:0", lambda: sp, ssl_context=sctx)
    port = srv.address.rsplit(":", 1)[1]
    op = Op("server", srv.start)
    s = sched()
    kinds = ["gone", "reset"]
    if mode != "plain":
        kinds += ["silent", "garbage", "untrusting"]
    if mode == "mutual":
        kinds += ["no-cert", "other-cert"]
    for i in range(param("bad")):
        kind = choose(f"client{i}", kinds)
        reach(kind)
        if kind in ("untrusting", "no-cert", "other-cert"):
            cctx = context(
                False,
                {"no-cert": None, "other-cert": ("client", "others")}.get(kind, GOOD),
                ["others"] if kind == "untrusting" else ["servers"],
            )
            cp = Proto()
            cq = ClientMPQueue(f"tcp://127.0.0.1:{port}", lambda p=cp: p, ssl_context=cctx)
            cop = Op(f"client{i}", cq.start)
            s.settle()
            check(cop.done and isinstance(cop.exc, ssl.SSLError), f"a client whose handshake fails is not told: {cop.exc!r}")
            cq.stop()
        else:
            c = FakeSocket(socket.AF_INET)
            c.connect(("127.0.0.1", int(port)))
            if kind == "reset":
                assert c.peer is not None
                c.peer.reset = c.peer.gone = c.peer.eof = True
            elif kind == "garbage":
                c.sendall(b"GET / HTTP/1.1\r\n")
            elif kind == "silent":
                s.settle()
            c.close()
        s.settle()
        if kind in ("garbage", "silent"):
            sent = b"".join(x for k in n.sockets if k is c.peer for x in k.sent)
            check(not sent, "data is sent to a client without TLS")
        if mode == "plain" and kind == "gone":
            if op.done:
                sx.stop_path()  # it was connected and has gone since
            continue
        check(not op.done, f"a {kind} client ends the listener: {op.exc!r}")
    if op.done:
        sx.stop_path()
    cp = Proto()
    cctx = None
    if mode != "plain":
        cctx = context(False, GOOD, ["servers"])
    cq = ClientMPQueue(f"tcp://127.0.0.1:{port}", lambda: cp, ssl_context=cctx)
    cop = Op("good", cq.start)
    s.settle()
    check(cop.done and cop.exc is None, f"a valid client cannot connect: {cop.exc!r} " + s.stuck())
    check(op.done and op.exc is None, f"the listener does not accept a valid client: {op.exc!r}")
    srv.send(MSG)
    cq.send(MSG)
    s.settle()
    check(len(cp.got) == 1 and len(sp.got) == 1, "messages do not arrive")
    if mode != "plain":
        check(isinstance(srv._socket._sock, TLSSocket) and isinstance(cq._socket._sock, TLSSocket), "a TLS connection is not one")
    cq.stop()
    s.settle()
    srv.stop()
    observe(mode)


@harness(
    "C25",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["accepted", "refused", "no-tls"],
    bounds="a client that verifies, ignores or trusts a CA against a server with a certificate for the right or another name from a known or unknown issuer, or without TLS; over TCP and Unix sockets; schedules with up to `delays` departures",
    stubs=STUBS,
)
def client() -> None:
    n = world(param("delays"))
    uds = choose("uds", [False, True])
    name, issuer = choose("name", ["match", "other"]), choose("issuer", ["system", "own", "unknown"])
    verify = choose("verify", ["verify", "ignore", "/ca"])
    server_tls = choose("server_tls", [True, False])
    Context.cas = {"/ca": "own"}
    files = Files(True, False)
    cctx = _tls.create_client_tls_context(verify)
    cctx.trust = [Context.cas.get(files.real(x), x) for x in cctx.trust]  # type: ignore[attr-defined]
    addr = f"uds://{n.dir}/" + "x" * 80 if uds else "tcp://localhost:0"
    sctx = context(True, None) if server_tls else None
    sp, cp = Proto(), Proto()
    srv = ServerMPQueue(addr, lambda: sp, ssl_context=sctx)
    host = srv.address[6:][:63] if uds else "localhost"
    if sctx is not None:
        sctx.cert = (host if name == "match" else "elsewhere", issuer)
    op = Op("server", srv.start)
    cq = ClientMPQueue(srv.address if uds else "tcp://localhost:" + srv.address.rsplit(":", 1)[1], lambda: cp, ssl_context=cctx)
    cop = Op("client", cq.start)
    s = sched()
    s.settle()
    ok = server_tls and (
        verify == "ignore" or (name == "match" and (issuer == "system" or (issuer == "own" and verify == "/ca")))
    )
    if ok:
        reach("accepted")
        check(cop.done and cop.exc is None, f"a valid server is refused: {cop.exc!r} " + s.stuck())
    else:
        reach("refused" if server_tls else "no-tls")
        check(cop.done and cop.exc is not None, "a server that cannot be verified is accepted")
        check(not [x for x in s.threads if x.name.startswith("ClientMPQueue")], "messages of an unverified server are read")
    cq.stop()
    s.settle()
    srv.stop()
    s.settle()
    observe(ok)


@harness(
    "C25",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["accept", "handshake", "greeting", "ended"],
    bounds="stopping a listener that waits for a client, for its handshake (nothing, a part or all but the end of it received) or to greet it; schedules with up to `delays` departures",
    stubs=STUBS,
)
def stop_listener() -> None:
    n = world(param("delays"))
    where = choose("where", ["accept", "handshake", "greeting"])
    sctx = context(True, ("127.0.0.1", "servers"), []) if where == "handshake" else None
    tok = SocketCancellationToken()
    sp = Proto()
    srv = ServerMPQueue("tcp://127.0.0.1:0", lambda: sp, ssl_context=sctx, cancel_token=tok)
    op = Op("server", srv.start)
    s = sched()
    c = None
    if where != "accept":
        if where == "greeting":
            n.capacity = 0
        c = FakeSocket(socket.AF_INET)
        c.connect(("127.0.0.1", int(srv.address.rsplit(":", 1)[1])))
        if where == "handshake":
            part = choose("part", 3)
            if part:
                c.sendall(b"\x16\x00\x00" if part == 1 else b"\x16\x01\x00\x00h")
        if choose("early", [False, True]):
            s.settle()
    else:
        s.settle()
    reach(where)
    stop = Op("stop", tok.cancel)
    s.settle()
    check(stop.done and stop.exc is None, f"cancelling fails: {stop.exc!r}")
    check(op.done, "the listener cannot be stopped: " + s.stuck())
    check(isinstance(op.exc, CancelledError), f"stopping the listener raises {op.exc!r}")
    reach("ended")
    srv.stop()
    s.settle()
    check(c is None or not c.closed and (c.eof or c.reset), "the connection of a client is left open")
    observe(where)
