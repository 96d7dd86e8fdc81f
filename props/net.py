"""Sockets between threads of one process, with the semantics Linux gives them.

A Unix socket has a real (empty) file in a scratch directory, so that whatever
way the code removes it is seen.  All blocking goes through the scheduler.
"""

from __future__ import annotations

import errno
import os
import shutil
import socket as real
import select as real_select
import ssl as real_ssl
import tempfile
import typing as t

import sx
from sx import check
from sx.sched import sched

NET: "Net | None" = None


def net() -> "Net":
    assert NET is not None
    return NET


def _err(code: int) -> OSError:
    return OSError(code, os.strerror(code))


class Net:
    def __init__(self) -> None:
        global NET
        NET = self
        self.dir = tempfile.mkdtemp(prefix="sx-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
        self.listeners: dict[t.Any, FakeSocket] = {}
        self.sockets: list[FakeSocket] = []
        self.port = 40000
        self.piece: t.Callable[[t.Any, int], int] = lambda sock, n: n
        self.capacity: int | None = None
        self.silent: set[int] = set()  # ports that never answer
        self.names: dict[str, list[str]] = {}
        self.umask: t.Any = 0o022
        self.umasks: list = []  # what it was set to
        self.fchmod_error = 0  # how fchmod on a socket fails
        self.bind_error = 0
        self.dualstack = True
        old = tempfile.tempdir, os.environ.get("TMPDIR")
        tempfile.tempdir = self.dir
        os.environ["TMPDIR"] = self.dir

        def undo() -> None:
            global NET
            NET = None
            tempfile.tempdir = old[0]
            if old[1] is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old[1]
            shutil.rmtree(self.dir, ignore_errors=True)

        sx.cleanup(undo)

    def install(self, *mods: t.Any) -> None:
        for m in mods:
            sx.patch_module(
                m,
                real,
                socket=FakeSocket,
                create_server=create_server,
                has_dualstack_ipv6=lambda: self.dualstack,
                getaddrinfo=getaddrinfo,
            )
            sx.patch_module(m, real_select, select=select)
            sx.patch_module(m, real_ssl, create_default_context=create_default_context, SSLContext=Context)
            sx.patch_module(m, os, fchmod=fchmod, umask=umask)

    def __enter__(self) -> "Net":
        return self


def umask(value: int) -> int:
    n = net()
    n.umasks.append(value & 0o777)
    old, n.umask = n.umask, value & 0o777
    return old


def fchmod(fd: int, mode: int) -> None:
    for s in net().sockets:
        if not s.closed and s.fd == fd:
            if net().fchmod_error:
                raise _err(net().fchmod_error)
            s.mode = mode
            return
    os.fchmod(fd, mode)


def key(family: int, addr: t.Any) -> t.Any:
    return ("uds", addr) if family == real.AF_UNIX else ("tcp", addr[1])


def getaddrinfo(host: t.Any, port: t.Any, family: int = 0, type: int = 0, proto: int = 0, flags: int = 0) -> list:
    """Names are looked up in net().names; a host that is an address stands for itself."""
    hosts = net().names.get(host)
    if hosts is None:
        hosts = ["127.0.0.1"] if host == "localhost" else ["::1", "127.0.0.1"] if host is None else []
        if host and (":" in host or host.replace(".", "").isdigit()):
            hosts = [host]
    if host is None and flags & real.AI_PASSIVE:
        hosts = ["0.0.0.0", "::"]
    out = []
    for h in hosts:
        fam = real.AF_INET6 if ":" in h else real.AF_INET
        if family in (0, fam):
            out.append((fam, real.SOCK_STREAM, 6, "", (h, port, 0, 0) if fam == real.AF_INET6 else (h, port)))
    if not out:
        code = real.EAI_ADDRFAMILY if hosts else real.EAI_NONAME
        raise real.gaierror(code, "Address family for hostname not supported" if hosts else "Name or service not known")
    return out


def create_server(address: t.Any, *, family: int = real.AF_INET, backlog: t.Any = None, reuse_port: bool = False, dualstack_ipv6: bool = False) -> "FakeSocket":
    s = FakeSocket(family)
    s.dual = dualstack_ipv6
    try:
        s.bind(address)
    except BaseException:
        s.close()
        raise
    s.listen()
    return s


class FakeSocket:
    fds = 1000

    def __init__(self, family: int = real.AF_INET, type: int = real.SOCK_STREAM, proto: int = 0, fileno: t.Any = None) -> None:
        if family == -1:
            family = real.AF_INET
        FakeSocket.fds += 1
        self.fd = FakeSocket.fds
        self.family = real.AddressFamily(family)
        self.type = real.SocketKind.SOCK_STREAM
        self.mode = 0o777
        self.closed = False
        self.owner = sched().cur.root
        self.users = 0
        self.blocking = True
        self.timeout: float | None = None
        self.name: t.Any = None
        self.key: t.Any = None
        self.dual = False
        self.backlog: list[FakeSocket] | None = None
        self.peer: FakeSocket | None = None
        self.rx: list[bytes] = []
        self.rd_off = self.wr_off = False  # shutdown here
        self.eof = False  # the peer will send no more
        self.reset = False
        self.error = 0
        self.sent: list[bytes] = []
        net().sockets.append(self)

    # -- helpers
    @property
    def tcp(self) -> bool:
        return self.family != real.AF_UNIX

    def _use(self) -> None:
        if self.closed:
            raise _err(errno.EBADF)

    def _wait(self, pred: t.Callable[[], bool], what: str) -> None:
        if self.timeout == 0 or not self.blocking:
            if not pred():
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            return
        self.users += 1
        try:
            if not sched().wait(pred, what, self.timeout):
                raise TimeoutError("timed out")
        finally:
            self.users -= 1
            if self.closed and not self.users:
                self._release()

    def _release(self) -> None:
        """The last reference to the open socket is gone."""
        if self.peer is not None:
            if self.rx:
                self.peer.reset = True
            self.peer.eof = True
            self.peer.gone = True
        if self.backlog is not None:
            for c in self.backlog:
                if c.peer is not None:
                    c.peer.eof = c.peer.gone = True
                    c.peer.reset = True
            self.backlog = None
            if net().listeners.get(self.key) is self:
                del net().listeners[self.key]

    gone = False
    told = False
    taken = 0

    def pending(self) -> int:
        return sum(map(len, self.rx))

    def readable(self) -> bool:
        if self.backlog is not None:
            return bool(self.backlog) or self.rd_off
        return bool(self.rx) or self.eof or self.rd_off or self.reset

    # -- what the code calls
    def fileno(self) -> int:
        return -1 if self.closed else self.fd

    def setblocking(self, flag: bool) -> None:
        self.blocking = flag
        self.timeout = None if flag else 0

    def settimeout(self, v: t.Any) -> None:
        self.timeout = v
        self.blocking = v != 0

    def gettimeout(self) -> t.Any:
        return self.timeout

    def setsockopt(self, *a: t.Any) -> None:
        pass

    def getsockopt(self, level: int, name: int, *a: t.Any) -> int:
        if level == real.SOL_SOCKET and name == real.SO_ERROR:
            e, self.error = self.error, 0
            return e
        return 0

    def getsockname(self) -> t.Any:
        if self.name is None:
            return "" if not self.tcp else ("0.0.0.0", 0) if self.family == real.AF_INET else ("::", 0, 0, 0)
        return self.name

    getpeername = getsockname

    def bind(self, addr: t.Any) -> None:
        self._use()
        n = net()
        if n.bind_error:
            raise _err(n.bind_error)
        if self.tcp:
            host, port = addr[0], addr[1]
            if port == 0:
                n.port += 1
                port = n.port
            if ("tcp", port) in n.listeners:
                raise _err(errno.EADDRINUSE)
            v6 = self.family == real.AF_INET6
            host = getaddrinfo(host, port, self.family)[0][4][0] if host else "::" if v6 else "0.0.0.0"
            self.name = (host, port, 0, 0) if v6 else (host, port)
            self.key = ("tcp", port)
        else:
            check(os.path.dirname(str(addr)) == n.dir, "a Unix socket is made outside the temporary directory")
            if os.path.exists(addr):
                raise _err(errno.EADDRINUSE)
            os.close(os.open(addr, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o600))
            self.name = addr
            self.key = ("uds", addr)
            self.made = self.mode & ~n.umask

    made = None

    def listen(self, backlog: t.Any = None) -> None:
        self._use()
        self.backlog = []
        net().listeners[self.key] = self

    def _accept_one(self) -> tuple["FakeSocket", t.Any]:
        assert self.backlog is not None
        conn = self.backlog.pop(0)
        return conn, "" if not self.tcp else ("127.0.0.1", 50000)

    def accept(self) -> tuple["FakeSocket", t.Any]:
        s = sched()
        s.point("accept")
        self._use()
        if self.backlog is None:
            raise _err(errno.EINVAL)
        self._wait(lambda: bool(self.backlog) or self.rd_off, "a connection")
        if not self.backlog:
            raise _err(errno.EINVAL)
        return self._accept_one()

    def serves(self, family: int, host: str) -> bool:
        """Whether a connection to this host gets to this listener."""
        assert self.name is not None
        if family != self.family:
            return self.family == real.AF_INET6 and self.dual and self.name[0] == "::"
        host = {"::": "::1", "0.0.0.0": "127.0.0.1"}.get(host, host)
        return self.name[0] in ("::", "0.0.0.0", host)

    def connect(self, addr: t.Any) -> None:
        s = sched()
        s.point("connect")
        self._use()
        k = key(self.family, addr)
        lst = net().listeners.get(k)
        if not self.tcp and not os.path.exists(addr):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        if lst is not None and self.tcp and not lst.serves(self.family, addr[0]):
            lst = None
        if self.tcp and addr[1] in net().silent:
            self.connecting = True
            if self.blocking:
                self._wait(lambda: self.rd_off or self.wr_off, "a connection")
            raise BlockingIOError(errno.EINPROGRESS, os.strerror(errno.EINPROGRESS))
        if lst is None or lst.rd_off:
            self.refused = True
            if self.tcp and not self.blocking:
                self.error = errno.ECONNREFUSED
                raise BlockingIOError(errno.EINPROGRESS, os.strerror(errno.EINPROGRESS))
            raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
        other = FakeSocket(self.family)
        other.name = lst.name
        other.owner = lst.owner
        other.peer, self.peer = self, other
        assert lst.backlog is not None
        lst.backlog.append(other)
        if self.tcp and not self.blocking:
            raise BlockingIOError(errno.EINPROGRESS, os.strerror(errno.EINPROGRESS))

    refused = connecting = False

    def connect_ex(self, addr: t.Any) -> int:
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or 1
        return 0

    def _recv(self, n: int) -> bytes:
        sched().point("recv")
        self._use()
        if self.peer is None:
            raise _err(errno.ENOTCONN if self.tcp else errno.EINVAL)
        if n == 0:
            return b""
        self._wait(self.readable, "data")
        if self.rx:
            got = min(n, len(self.rx[0]))
            got = net().piece(self, got)
            self.taken += got
            data = self.rx[0][:got]
            rest = self.rx[0][got:]
            self.rx[:1] = [rest] if rest else []
            return data
        if self.reset:
            self.reset = False
            self.eof = True
            raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
        return b""

    def recv(self, n: int, flags: int = 0) -> bytes:
        return self._recv(n)

    def recv_into(self, buffer: t.Any, nbytes: int = 0, flags: int = 0) -> int:
        data = self._recv(nbytes or len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def _can_send(self) -> bool:
        p = self.peer
        return (
            p is None
            or self.wr_off
            or self.gone
            or self.reset
            or p.rd_off
            or net().capacity is None
            or p.pending() < net().capacity
        )

    def sendall(self, data: t.Any, flags: int = 0) -> None:
        sched().point("send")
        data = bytes(data) if type(data) in (bytearray, memoryview) else data
        while True:
            self._use()
            if self.peer is None:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE)) if self.wr_off else _err(errno.ENOTCONN)
            self._wait(self._can_send, "room to send")
            if self.tcp and self.gone and not self.wr_off and not self.reset and not self.told:
                # The other system tells that nobody is there, but only now.
                self.told = True
                return
            if self.wr_off or self.gone or (self.peer.rd_off and not self.tcp):
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            if self.reset:
                raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
            cap = net().capacity
            part = data if cap is None else data[: cap - self.peer.pending()]
            self.peer.rx.append(part)
            self.sent.append(part)
            data = data[len(part) :]
            if not len(data):
                return

    def send(self, data: t.Any, flags: int = 0) -> int:
        n = net().piece(self, len(data))
        self.sendall(data[:n])
        return n

    def shutdown(self, how: int) -> None:
        sched().point("shutdown")
        self._use()
        if self.tcp and self.backlog is None and (self.peer is None or self.reset) and not self.connecting:
            raise _err(errno.ENOTCONN)
        if how in (real.SHUT_RD, real.SHUT_RDWR):
            self.rd_off = True
        if how in (real.SHUT_WR, real.SHUT_RDWR):
            self.wr_off = True
            if self.peer is not None:
                self.peer.eof = True

    def close(self) -> None:
        sched().point("close")
        if self.closed:
            return
        self.closed = True
        if not self.users:
            self._release()

    def detach(self) -> int:
        return self.fileno()

    def __enter__(self) -> "FakeSocket":
        return self

    def __exit__(self, *a: t.Any) -> None:
        self.close()


def select(r: t.Any, w: t.Any, x: t.Any, timeout: float | None = None) -> tuple:
    s = sched()
    s.point("select")
    r, w = list(r), list(w)
    for k in r + w:
        if k.fileno() < 0:
            raise ValueError("file descriptor cannot be a negative integer (-1)")
    raw = [getattr(k, "raw", k) for k in r + w]
    ready: list = []

    def pred() -> bool:
        ready[:] = [
            [k for k in r if getattr(k, "raw", k).readable()],
            [k for k in w if _writable(getattr(k, "raw", k))],
        ]
        return bool(ready[0] or ready[1])

    for k in raw:
        k.users += 1
    try:
        s.wait(pred, "select", timeout)
    finally:
        for k in raw:
            k.users -= 1
            if k.closed and not k.users:
                k._release()
    pred()
    return ready[0], ready[1], []


def _writable(k: FakeSocket) -> bool:
    if k.peer is None:
        return k.refused or k.wr_off or k.error != 0 or not k.tcp
    return k._can_send()


def pair() -> tuple[FakeSocket, FakeSocket]:
    """Two connected Unix sockets."""
    a, b = FakeSocket(real.AF_UNIX), FakeSocket(real.AF_UNIX)
    a.peer, b.peer = b, a
    return a, b


# ------------------------------------------------------------------- TLS


class Context:
    """ssl.SSLContext: certificates are (subject, issuer) of the files they are loaded from."""

    files: dict[str, tuple[str, str]] = {}  # certificate file -> (host name, issuer)
    cas: dict[str, str] = {}  # CA file or directory -> issuer
    made: list["Context"] = []

    def __init__(self, purpose: t.Any = None) -> None:
        self.server = purpose in (real_ssl.Purpose.CLIENT_AUTH, real_ssl.PROTOCOL_TLS_SERVER, real_ssl.PROTOCOL_TLS)
        self._check = not self.server
        self._mode = real_ssl.CERT_NONE if self.server else real_ssl.CERT_REQUIRED
        self.trust = ["system"] if purpose == real_ssl.Purpose.SERVER_AUTH else []
        self.cert: t.Any = None
        self.calls: list = []
        Context.made.append(self)

    @property
    def check_hostname(self) -> bool:
        return self._check

    @check_hostname.setter
    def check_hostname(self, v: bool) -> None:
        if v and self._mode == real_ssl.CERT_NONE:
            self._mode = real_ssl.CERT_REQUIRED
        self._check = bool(v)

    @property
    def verify_mode(self) -> t.Any:
        return self._mode

    @verify_mode.setter
    def verify_mode(self, v: t.Any) -> None:
        if v == real_ssl.CERT_NONE and self._check:
            raise ValueError("Cannot set verify_mode to CERT_NONE when check_hostname is enabled.")
        self._mode = real_ssl.VerifyMode(v)

    def load_cert_chain(self, certfile: str, keyfile: t.Any = None, password: t.Any = None) -> None:
        self.calls.append(("cert", certfile, keyfile, password))
        self.cert = Context.files.get(certfile, (certfile, "?"))

    def load_verify_locations(self, cafile: t.Any = None, capath: t.Any = None, cadata: t.Any = None) -> None:
        self.calls.append(("ca", cafile, capath))
        self.trust.append(Context.cas.get(cafile or capath, cafile or capath))

    def load_default_certs(self, purpose: t.Any = None) -> None:
        self.trust.append("system")

    def wrap_socket(
        self,
        sock: FakeSocket,
        server_side: bool = False,
        do_handshake_on_connect: bool = True,
        suppress_ragged_eofs: bool = True,
        server_hostname: t.Any = None,
        session: t.Any = None,
    ) -> "TLSSocket":
        if server_side and server_hostname:
            raise ValueError("server_hostname can only be specified in client mode")
        if self._check and not server_side and not server_hostname:
            raise ValueError("check_hostname requires server_hostname")
        tls = TLSSocket.__new__(TLSSocket)
        tls.__dict__ = sock.__dict__  # takes the file descriptor over
        tls.ctx, tls.server_side, tls.host = self, server_side, server_hostname
        tls.secure = False
        tls.clear: bytes = b""
        tls.inbuf = b""
        if do_handshake_on_connect and sock.peer is not None:
            try:
                tls.do_handshake()
            except BaseException:
                tls.close()
                raise
        return tls


def create_default_context(purpose: t.Any = real_ssl.Purpose.SERVER_AUTH, **k: t.Any) -> Context:
    return Context(purpose)


class TLSSocket(FakeSocket):
    """TLS 1.3, as far as who accepts whom and when each side learns of it."""

    def _exact(self, n: int, first: bool) -> bytes:
        while len(self.inbuf) < n:
            data = self._recv(n - len(self.inbuf))
            if not data:
                raise real_ssl.SSLEOFError(8, "EOF occurred in violation of protocol")
            self.inbuf += data
        data, self.inbuf = self.inbuf[:n], self.inbuf[n:]
        return data

    def _record(self) -> tuple[bytes, bytes]:
        head = self._exact(1, True)
        if head not in (b"\x16", b"\x15", b"\x17"):
            raise real_ssl.SSLError(1, "[SSL: WRONG_VERSION_NUMBER] wrong version number")
        n = int.from_bytes(self._exact(3, False), "little")
        body = self._exact(n, False)
        if head == b"\x15":
            raise real_ssl.SSLError(1, "[SSL: TLSV13_ALERT] " + body.decode())
        return head, body

    def _put(self, head: bytes, body: bytes) -> None:
        FakeSocket.sendall(self, head + len(body).to_bytes(3, "little") + body)

    def _reject(self, why: str) -> t.NoReturn:
        try:
            self._put(b"\x15", why.encode())
        except OSError:
            pass
        raise real_ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] " + why)

    def do_handshake(self, block: bool = False) -> None:
        ctx = self.ctx
        if self.server_side:
            self._record()
            self._put(b"\x16", "|".join(ctx.cert or ("", "")).encode())
            _, body = self._record()
            if ctx.verify_mode == real_ssl.CERT_REQUIRED:
                issuer = body.decode().split("|")[-1]
                if not issuer or issuer not in ctx.trust:
                    self._reject("client certificate")
        else:
            self._put(b"\x16", (self.host or "").encode())
            _, body = self._record()
            name, issuer = body.decode().split("|")
            if ctx.verify_mode != real_ssl.CERT_NONE and issuer not in ctx.trust:
                self._reject("unknown issuer")
            if ctx.check_hostname and name != self.host:
                self._reject("hostname mismatch")
            self._put(b"\x16", "|".join(ctx.cert or ("", "")).encode())
        self.secure = True

    def sendall(self, data: t.Any, flags: int = 0) -> None:
        if not self.secure:
            self.do_handshake()
        self._put(b"\x17", bytes(data))

    def send(self, data: t.Any, flags: int = 0) -> int:
        self.sendall(data)
        return len(data)

    def recv(self, n: int, flags: int = 0) -> bytes:
        if not self.secure:
            self.do_handshake()
        if not self.clear:
            try:
                _, self.clear = self._record()
            except real_ssl.SSLEOFError:
                return b""
        data, self.clear = self.clear[:n], self.clear[n:]
        return data

    def recv_into(self, buffer: t.Any, nbytes: int = 0, flags: int = 0) -> int:
        data = self.recv(nbytes or len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def unwrap(self) -> "FakeSocket":
        return self
