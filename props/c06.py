"""Cancelling blocked socket operations."""

from __future__ import annotations

import socket
import ssl
import typing as t

import sx
from sx import check, choose, harness, observe, param, reach
from sx.sched import Sched, install, sched

from ansibug import _socket_helper
from ansibug._socket_helper import CancelledError, SocketCancellationToken

from .net import Context, FakeSocket, Net, TLSSocket, pair

STUBS = "threads run on a chosen schedule (sx/sched.py); sockets are stand-ins with Linux semantics (props/net.py)"


class Op:
    """One blocking operation in a thread of its own."""

    def __init__(self, name: str, func: t.Callable[[], t.Any]) -> None:
        self.name = name
        self.func = func
        self.result: t.Any = None
        self.exc: t.Any = None
        self.th = sched().spawn(self._run, name)

    def _run(self) -> None:
        try:
            self.result = self.func()
        except Exception as e:
            self.exc = e

    @property
    def done(self) -> bool:
        return self.th.done


def tcp_pair() -> tuple[FakeSocket, FakeSocket]:
    a, b = FakeSocket(socket.AF_INET), FakeSocket(socket.AF_INET)
    a.peer, b.peer = b, a
    return a, b


def listener(n: Net, tcp: bool) -> FakeSocket:
    s = FakeSocket(socket.AF_INET if tcp else socket.AF_UNIX)
    s.bind(("127.0.0.1", 0) if tcp else n.dir + "/s")
    s.listen()
    return s


def wrap(sock: FakeSocket, server: bool) -> TLSSocket:
    ctx = Context(ssl.Purpose.CLIENT_AUTH if server else ssl.Purpose.SERVER_AUTH)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    return ctx.wrap_socket(sock, server_side=server, do_handshake_on_connect=False)


KINDS = ["accept", "connect", "recv", "send", "silent", "handshake"]


def make(kind: str, n: Net, tok: SocketCancellationToken, tcp: bool, tag: str) -> tuple[Op, t.Callable[[], None], t.Callable[[], None], t.Callable]:
    """The operation, what lets it finish, what breaks it, and the check of its result."""
    nop = lambda: None
    if kind == "accept":
        lst = listener(n, tcp)
        op = Op(tag, lambda: tok.accept(lst))

        def come() -> None:
            c = FakeSocket(lst.family)
            c.connect(lst.getsockname())

        return op, come, nop, lambda r: r[0].peer is not None
    if kind == "silent":
        n.silent.add(7)
        sock = FakeSocket(socket.AF_INET)
        return Op(tag, lambda: tok.connect(sock, ("127.0.0.1", 7))), nop, nop, lambda r: False
    if kind == "connect":
        lst = listener(n, tcp)
        sock = FakeSocket(lst.family)
        op = Op(tag, lambda: tok.connect(sock, lst.getsockname()))
        return op, nop, nop, lambda r: sock.peer is not None and sock.blocking
    a, b = tcp_pair() if tcp else pair()
    if kind == "handshake":
        server = choose("server side", 2)
        tls = [wrap(x, bool(server) is (i == 0)) for i, x in enumerate((a, b))]
        op = Op(tag, lambda: tok.do_handshake(tls[0]))
        return op, tls[1].do_handshake, b.close, lambda r: tls[0].secure
    if kind == "recv":
        buf = bytearray(4)
        op = Op(tag, lambda: tok.recv_into(a, buf, 4))

        def data() -> None:
            b.sendall(b"abcd")

        return op, data, b.close, lambda r: buf[:r] == b"abcd"[:r] and r == (0 if b.closed else 4)
    a.peer.rx.append(b"x" * n.capacity)  # type: ignore[union-attr]
    op = Op(tag, lambda: tok.sendall(a, b"12"))

    def room() -> None:
        b.recv(100)

    return op, room, b.close, lambda r: b"".join(b.rx) == b"12"


@harness(
    "C06",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["cancelled", "finished", "failed", "late"],
    bounds="accept, connect (answered, or never answered), TLS handshake (of either side), recv and send on TCP and Unix sockets, with the peer acting before, during or after; every schedule with up to `delays` departures from run-until-blocked, at any statement of _socket_helper.py",
    stubs=STUBS,
)
def single() -> None:
    s = Sched(delays=param("delays"), lines=("/_socket_helper.py",))
    install()
    n = Net()
    n.capacity = 4
    n.install(_socket_helper)
    tok = SocketCancellationToken()
    tcp = choose("tcp", [True, False])
    kind = choose("kind", KINDS if tcp else KINDS[:4])
    op, finish, fail, good = make(kind, n, tok, tcp, kind)
    what = choose("peer", ["silent", "acts", "leaves"])
    if what == "acts":
        peer = Op("peer", finish)
    elif what == "leaves":
        peer = Op("peer", fail)
    early = choose("settled", 2)
    if early:
        s.settle()
    tok.cancel()
    late = Op("late", lambda: tok.recv_into(pair()[0], bytearray(1), 1))
    s.settle()
    check(op.done, "a cancelled operation is still blocked: " + s.stuck())
    check(late.done and isinstance(late.exc, CancelledError), "an operation that starts after the cancellation runs")
    if op.exc is None:
        reach("finished")
        check(good(op.result), "an operation that was not interrupted has a wrong result")
    elif isinstance(op.exc, CancelledError):
        reach("cancelled")
        check(not (early and kind == "connect"), "a finished connect is reported as cancelled")
    else:
        reach("failed")
        check(what == "leaves" and isinstance(op.exc, OSError), f"cancelling {kind} surfaces as {type(op.exc).__name__}")
    reach("late")
    observe(kind, type(op.exc).__name__)


@harness(
    "C06",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["both", "reset"],
    bounds="two of accept, recv and send at the same time on one token, with one of their TCP peers resetting the connection at any moment; every schedule with up to `delays` departures, at any statement",
    stubs=STUBS,
)
def several() -> None:
    s = Sched(delays=param("delays"), lines=("/_socket_helper.py",))
    install()
    n = Net()
    n.capacity = 4
    n.install(_socket_helper)
    tok = SocketCancellationToken()
    k1 = choose("first", ["recv", "send"])
    k2 = choose("second", ["recv", "accept"])
    op1, _, _, _ = make(k1, n, tok, True, "one")
    op2, _, _, _ = make(k2, n, tok, choose("tcp", [True, False]), "two")
    reset = choose("reset", 2)
    s.settle()
    if reset:
        # the peer's RST has arrived, the blocked thread has not run yet
        reach("reset")
        sock = next(x for x in n.sockets if x.peer is not None)
        sock.reset = True
    tok.cancel()
    s.settle()
    check(op1.done and op2.done, "an operation is left blocked by a cancellation: " + s.stuck())
    check(isinstance(op2.exc, CancelledError), "a blocked operation is not told that it was cancelled")
    check(isinstance(op1.exc, CancelledError) or (reset and isinstance(op1.exc, OSError)), "a blocked operation is not told that it was cancelled")
    reach("both")
    tok.cancel()
    observe(k1, k2)


@harness(
    "C06",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["third"],
    bounds="recv and a second operation under way together, one of which finishes before a third one starts; every schedule with up to `delays` departures, at any statement",
    stubs=STUBS,
)
def turnover() -> None:
    s = Sched(delays=param("delays"), lines=("/_socket_helper.py",))
    install()
    n = Net()
    n.capacity = 4
    n.install(_socket_helper)
    tok = SocketCancellationToken()
    k = [choose("first", ["recv", "send"]), choose("second", ["recv", "accept"])]
    ops = [make(x, n, tok, True, f"op{i}") for i, x in enumerate(k)]
    s.frozen = True
    s.settle()
    over = choose("over", 2)
    ops[over][1]()
    s.settle()
    check(ops[over][0].done and ops[over][0].exc is None, "an operation does not finish")
    check(ops[over][3](ops[over][0].result), "an operation that was not interrupted has a wrong result")
    third = make(choose("third", ["recv", "accept", "send"]), n, tok, True, "third")[0]
    s.settle()
    s.frozen = False
    tok.cancel()
    s.settle()
    for op in (ops[1 - over][0], third):
        check(op.done, "an operation is left blocked by a cancellation: " + s.stuck())
        check(isinstance(op.exc, CancelledError), "a blocked operation is not told that it was cancelled")
    reach("third")
    observe(k, over)


@harness(
    "C06",
    expect=["timeout", "no answer", "refused", "reset", "leave"],
    bounds="accept, connect and recv that fail by themselves, on TCP and Unix sockets",
    stubs=STUBS,
)
def uncancelled() -> None:
    s = Sched(delays=0)
    install()
    n = Net()
    n.capacity = 4
    n.install(_socket_helper)
    tok = SocketCancellationToken()
    tcp = choose("tcp", [True, False])
    what = choose("what", ["timeout", "no answer", "refused", "reset", "leave", "cancel-socket"])
    fam = socket.AF_INET if tcp else socket.AF_UNIX
    if what == "timeout":
        lst = listener(n, tcp)
        op = Op("op", lambda: tok.accept(lst, timeout=5))
        s.settle(patient=True)
        check(isinstance(op.exc, TimeoutError), "an accept without a client does not time out")
        check(s.clock == 5, "the timeout is not the one that was given")
    elif what == "no answer":
        if not tcp:
            sx.stop_path()
        n.silent.add(9)
        sock = FakeSocket(fam)
        op = Op("op", lambda: tok.connect(sock, ("127.0.0.1", 9), timeout=3))
        s.settle(patient=True)
        check(isinstance(op.exc, TimeoutError), "a connect without an answer does not time out")
        check(s.clock == 3, "the timeout is not the one that was given")
    elif what == "refused":
        sock = FakeSocket(fam)
        op = Op("op", lambda: tok.connect(sock, ("127.0.0.1", 9) if tcp else n.dir + "/none", timeout=3))
        s.settle(patient=True)
        check(isinstance(op.exc, OSError) and not isinstance(op.exc, TimeoutError), "a refused connection is not an OSError")
    elif what == "cancel-socket":
        l1, l2 = listener(n, True), listener(n, False)
        op = Op("op", lambda: tok.accept(l1, timeout=5, cancel_socket=l2))
        s.settle()
        FakeSocket(socket.AF_UNIX).connect(l2.getsockname())
        s.settle()
        check(isinstance(op.exc, CancelledError), "a connection to the cancel socket does not cancel the accept")
    else:
        a, b = tcp_pair() if tcp else pair()
        op = Op("op", lambda: tok.recv_into(a, bytearray(4), 4))
        s.settle()
        if what == "reset":
            a.reset = True
        else:
            b.close()
        s.settle()
        if what == "reset":
            check(isinstance(op.exc, ConnectionResetError), "a reset is not reported")
        else:
            check(op.exc is None and op.result == 0, "the end of the stream is not reported as such")
    check(op.done, "a failed operation is still blocked")
    # nothing stays registered for operations that are over
    tok.cancel()
    if what != "cancel-socket":
        reach(what)
    observe(what, type(op.exc).__name__)
