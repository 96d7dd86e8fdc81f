"""The queue between debug adapter and playbook process."""

from __future__ import annotations

import pickle
import typing as t

import sx
from sx import check, choose, harness, integer, observe, param, reach
from sx.sched import Sched, install, sched

import ansibug.dap as dap
from ansibug import _mp_queue, _socket_helper
from ansibug._mp_queue import ClientMPQueue, MPProtocol, ServerMPQueue

from .c06 import Op
from .net import FakeSocket, Net

STUBS = "threads run on a chosen schedule (sx/sched.py); sockets are stand-ins with Linux semantics (props/net.py)"


class Proto(MPProtocol):
    def __init__(self) -> None:
        self.got: list = []
        self.closed: list = []
        self.after = False

    def on_msg_received(self, msg: t.Any) -> None:
        self.after = self.after or bool(self.closed)
        self.got.append(msg)

    def connection_closed(self, exp: t.Any) -> None:
        self.closed.append(exp)


class Link:
    """A started server and a started client."""

    def __init__(self, delays: int, lines: tuple = ()) -> None:
        self.s = Sched(delays=delays, lines=lines)
        install()
        self.n = Net()
        self.n.install(_socket_helper, _mp_queue)
        tcp = choose("tcp", [False, True])
        self.ps, self.pc = Proto(), Proto()
        self.s.frozen = True
        self.server = ServerMPQueue("tcp://127.0.0.1:0" if tcp else "uds://", lambda: self.ps)
        self.client = ClientMPQueue(self.server.address.replace("[::ffff:127.0.0.1]", "127.0.0.1"), lambda: self.pc)
        a = Op("accept", self.server.start)
        b = Op("connect", self.client.start)
        self.s.settle()
        check(a.done and b.done and not a.exc and not b.exc, f"client and server do not connect: {a.exc} {b.exc} {self.s.stuck()}")
        self.s.frozen = False

    def socket_of(self, q: t.Any) -> FakeSocket:
        live = [x for x in self.n.sockets if x.peer is not None and not x.closed]
        check(len(live) == 2, "a queue has no connection of its own")
        return live[0] if q is self.client else live[1]


def text_of(size: int) -> str:
    return "ab\u00e9\n" * (size // 4) + "z" * (size % 4)


def out(i: int, size: int) -> dap.OutputEvent:
    return dap.OutputEvent(category="stdout", output=text_of(size), line=i)


@harness(
    "C05",
    quick={"cuts": 1},
    thorough={"cuts": 2},
    expect=["small", "large", "both"],
    bounds="three messages in each direction with texts of 0 to 70000 characters; the reader gets the bytes in pieces with `cuts` boundaries at any two offsets of the stream (for the large text: near the headers)",
    stubs=STUBS,
)
def stream() -> None:
    ln = Link(0)
    size = choose("size", [0, 300, 70000])
    up = choose("direction", [True, False])
    src, dst, proto = (ln.client, ln.server, ln.ps) if up else (ln.server, ln.client, ln.pc)
    msgs = [out(0, 1), out(1, size), out(2, 3)]
    lens = [len(pickle.dumps(m)) + 4 for m in msgs]
    start = 0 if up else 1  # the server's first byte is its greeting
    spots = sorted({b + d for b in (lens[0], lens[0] + lens[1]) for d in (-1, 1, 2, 3, 4, 5)})
    if size == 0 and param("cuts") == 1:
        spots = list(range(1, sum(lens)))
    cuts = sorted({choose(f"cut{i}", spots) + start for i in range(param("cuts"))})
    end = ln.socket_of(dst)

    def piece(sock: FakeSocket, n: int) -> int:
        if sock is end:
            for c in cuts:
                if sock.taken < c:
                    return min(n, c - sock.taken)
        return n

    ln.n.piece = piece
    a = Op("send", lambda: [src.send(m) for m in msgs])
    b = Op("back", lambda: [dst.send(m) for m in msgs[:1]])
    ln.s.settle()
    check(a.done and b.done and not a.exc and not b.exc, "a message cannot be sent")
    back = ln.pc if up else ln.ps
    check(proto.got == msgs, "messages are lost, altered or reordered when the stream is read in pieces")
    check(back.got == msgs[:1], "a message in the other direction is lost")
    check(not proto.closed and not back.closed, "an open connection is reported as closed")
    reach("large" if size > 1000 else "small")
    c = Op("stop", lambda: (src.stop(), dst.stop()))
    ln.s.settle()
    check(c.done and c.exc is None, "the queues cannot be stopped: " + ln.s.stuck())
    check(len(proto.closed) == 1 and len(back.closed) == 1, "the end of the connection is not reported exactly once")
    check(proto.closed == [None] and back.closed == [None], "an orderly end is reported as an error")
    reach("both")
    observe(len(proto.got))


@harness(
    "C05",
    expect=["whole", "cut", "none"],
    bounds="a peer that disappears after any number of bytes of a frame, with or without a reset",
    stubs=STUBS,
)
def truncated() -> None:
    ln = Link(0)
    data = pickle.dumps(out(0, 2))
    frame = len(data).to_bytes(4, "little") + data
    n = sx.concrete(integer("bytes", 0, len(frame)))
    raw = ln.socket_of(ln.client)
    hard = choose("reset", 2)
    a = Op("peer", lambda: raw.sendall(frame[:n]) if n else None)
    ln.s.settle()
    if hard:
        raw.rx.append(b"?")  # unread data makes the close a reset
    b = Op("leave", raw.close)
    ln.s.settle()
    if hard:
        # the reader on this side still holds the socket
        raw._release()
        ln.s.settle()
    check(a.done and b.done, "the peer is stuck")
    if not raw.users == 0:
        raw._release()
        ln.s.settle()
    check(len(ln.ps.got) == (1 if n == len(frame) else 0), "a part of a message is delivered, or a whole one is not")
    check(len(ln.ps.closed) == 1, "the end of the connection is not reported exactly once")
    if n in (0, len(frame)):
        reach("whole" if n else "none")
        check(hard or ln.ps.closed == [None], "an end between messages is reported as an error")
    else:
        reach("cut")
        check(ln.ps.closed[0] is not None, "an end inside a message is not reported as an error")
    c = Op("stop", ln.server.stop)
    ln.s.settle()
    check(c.done and c.exc is None, "a queue whose peer is gone cannot be stopped: " + ln.s.stuck())
    check(len(ln.ps.closed) == 1, "the end of the connection is reported twice")
    observe(n)


@harness(
    "C05",
    quick={"delays": 1},
    thorough={"delays": 2},
    expect=["all", "some"],
    bounds="each side sends up to two messages while either side stops at any moment, TCP and Unix sockets; every schedule with up to `delays` departures from run-until-blocked at any statement of _mp_queue.py and any socket operation",
    stubs=STUBS,
)
def ends() -> None:
    ln = Link(param("delays"), ("/_mp_queue.py",))
    who = choose("stops", ["client", "server", "both"])
    up, down = [out(1, 2), out(2, 2)], [out(3, 2)]

    def speak(q: t.Any, msgs: list, stop: bool) -> t.Callable:
        def f() -> None:
            for m in msgs:
                q.send(m)
            if stop:
                q.stop()

        return f

    a = Op("client", speak(ln.client, up, who != "server"))
    b = Op("server", speak(ln.server, down, who != "client"))
    ln.s.settle()
    check(a.done and b.done, "sending or stopping hangs: " + ln.s.stuck())
    for op, stops in ((a, who != "server"), (b, who != "client")):
        check(op.exc is None or isinstance(op.exc, OSError), f"sending to a peer that stops fails with {type(op.exc).__name__}")
    check(ln.ps.got == up[: len(ln.ps.got)], "messages arrive out of order, twice or altered")
    check(ln.pc.got == down[: len(ln.pc.got)], "messages arrive out of order, twice or altered")
    if who == "client" and a.exc is None:
        check(ln.ps.got == up, "a message that was sent before the end is lost")
    if who == "server" and b.exc is None:
        check(ln.pc.got == down, "a message that was sent before the end is lost")
    reach("all" if ln.ps.got == up and ln.pc.got == down else "some")
    for p in (ln.ps, ln.pc):
        check(len(p.closed) == 1, "the end of the connection is not reported exactly once: " + ln.s.stuck())
        check(not p.after, "a message is delivered after the end was reported")
    mine = ln.pc if who == "client" else ln.ps
    check(mine.closed == [None], "the side that stops reports an error") if who != "both" else None
    c = Op("cleanup", lambda: (ln.client.stop(), ln.server.stop()))
    ln.s.settle()
    check(c.done and c.exc is None, "stopping again fails: " + repr(c.exc) + ln.s.stuck())
    check(all(len(p.closed) == 1 for p in (ln.ps, ln.pc)), "the end of the connection is reported twice")
    observe(who, len(ln.ps.got), len(ln.pc.got))
