"""Socket addresses as text."""

from __future__ import annotations

import socket
import urllib

import sx
from sx import check, choose, harness, integer, observe, param, reach, string
from sx.sched import Sched, install

from ansibug import _mp_queue, _socket_helper
from ansibug._mp_queue import MPProtocol, MPQueue
from ansibug._socket_helper import parse_addr_string

from .net import Net
from .strat import patch_module


class Sock:
    def __init__(self, family: object, name: object) -> None:
        self.family = family
        self.name = name

    def getsockname(self) -> object:
        return self.name


def shown(family: object, name: object) -> str:
    """The address a listener on this socket announces."""
    q = MPQueue(Sock(family, name), MPProtocol)  # type: ignore[arg-type]
    return q.address


def parser() -> None:
    parse = sx.instrumented("urllib.parse")
    if sx.symbolic():
        patch_module(_socket_helper, urllib, parse=parse)


@harness(
    "C23",
    quick={"len": 3},
    thorough={"len": 4},
    expect=["plain", "mark"],
    bounds="every path / or /tmp/ followed by up to `len` characters of a, A, Z, 0, /, ., -, _, ~, space, #, ?, :, @, %, &, +, =, [, ], \\u00e9",
    stubs="a socket with a name; urllib.parse is instrumented too, without its cache",
)
def uds() -> None:
    parser()
    path = choose("dir", ["/", "/tmp/"]) + string("path", param("len"), "aAZ0/.-_~ #?:@%&+=\\[]\u00e9", minlen=1)
    if sx.any_(*[c in path for c in "#?"]):
        reach("mark")
    else:
        reach("plain")
    addr = shown(socket.AF_UNIX, path)
    try:
        got = parse_addr_string(addr)
    except ValueError:
        got = None
    check(got == path, "the announced address of a Unix socket leads to another path")
    check(parse_addr_string("uds:" + path) == path, "the short form of a Unix socket address leads to another path") if path[1] != "/" else None
    observe(got)


V6 = ["::", "::1", "fe80::a%eth0", "2001:db8::8:1", "::ffff:1.2.3.4"]


@harness(
    "C23",
    quick={"len": 4},
    thorough={"len": 6},
    expect=["v4", "v6", "name", "no-host", "bad-port"],
    bounds="every host of up to `len` characters a, z, 0, 9, ., -; 5 IPv6 addresses; IPv4 addresses with any numbers; every port 0..70000",
    stubs="a socket with a name; urllib.parse is instrumented too, without its cache",
)
def tcp() -> None:
    parser()
    kind = choose("kind", ["name", "v4", "v6", "no-host"])
    port = integer("port", 0, 70000)
    if kind == "name":
        host = string("host", param("len"), "az09.-", minlen=1)
        addr = "tcp://" + host + ":" + sx.text(port)
    elif kind == "v4":
        host = "10." + sx.text(integer("byte", 0, 255)) + ".0.1"
        addr = shown(socket.AF_INET, (host, port))
    elif kind == "v6":
        host = choose("host6", V6)
        addr = shown(socket.AF_INET6, (host, port, 0, 0))
    else:
        host = ""
        addr = "tcp://:" + sx.text(port)
    reach(kind)
    try:
        got = parse_addr_string(addr)
    except ValueError:
        check(port > 65535, "a usable TCP address is rejected")
        reach("bad-port")
        return
    check(port <= 65535, "an impossible port is accepted")
    check(got[0] == host, "a TCP address leads to another host")
    check(got[1] == port, "a TCP address leads to another port")
    observe(got[0])


@harness(
    "C23",
    quick={"len": 4},
    thorough={"len": 5},
    expect=["rejected", "free", "named"],
    bounds="every scheme of up to `len` characters out of t, c, p, u, d, s, T, U with an address after it; the incomplete forms",
    stubs="urllib.parse is instrumented too, without its cache",
)
def forms() -> None:
    parser()
    what = choose("form", ["scheme", "no-port", "both", "any-tcp", "any-uds", "named"])
    if what == "scheme":
        scheme = string("scheme", param("len"), "tcpudsTU")
        addr = scheme + "://" + choose("rest", ["x:1", "x", "", "/x"])
        low = scheme.lower()
        if low == "tcp" or low == "uds":
            sx.stop_path()
    elif what == "no-port":
        addr = "tcp://" + string("host", 3, "a0.", minlen=1) + choose("end", ["", ":"])
    elif what == "both":
        addr = "uds://a/" + string("path", 2, "ab/")
    elif what == "any-tcp":
        check(parse_addr_string("tcp://") == ("", 0), "tcp:// is not every interface and a free port")
        reach("free")
        return
    elif what == "any-uds":
        a, b = parse_addr_string("uds://"), parse_addr_string("uds://")
        check(a != b, "uds:// leads to the same path twice")
        check(a.startswith("/") and b.startswith("/"), "uds:// leads nowhere")
        reach("free")
        return
    else:
        name = string("name", 3, "aB0-_.#?", minlen=1)
        sx.assume(sx.not_(name == "."))  # no name of a file
        got = parse_addr_string("uds://" + name)
        import tempfile

        check(got == tempfile.gettempdir() + "/" + name, "a named Unix socket is not in the temporary directory")
        reach("named")
        return
    try:
        got = parse_addr_string(addr)
    except ValueError:
        reach("rejected")
        return
    check(False, "an unusable address is accepted")


RESOLVES = [["127.0.0.1"], ["::1"], ["127.0.0.1", "::1"], ["::1", "127.0.0.1"], ["10.0.0.5"]]
HOSTS = {"": "every", "0.0.0.0": "every4", "[::]": "every", "127.0.0.1": "4", "[::1]": "6", "h": "name"}


@harness(
    "C23",
    quick={},
    thorough={},
    expect=["every", "every4", "4", "6", "name", "free", "fixed"],
    bounds="listeners on every interface, on all of IPv4, on an IPv4 and an IPv6 address and on a name with 5 ways to resolve; with and without dual stack support; a free port and 4 others",
    stubs="sockets, name resolution and create_server are stand-ins with Linux semantics (props/net.py)",
)
def listening() -> None:
    s = Sched(delays=0)
    install()
    n = Net()
    n.install(_socket_helper, _mp_queue)
    host = choose("host", list(HOSTS))
    kind = HOSTS[host]
    reach(kind)
    n.dualstack = kind == "6" or host == "[::]" or choose("dualstack", [True, False])
    n.names["h"] = choose("resolves", RESOLVES) if kind == "name" else []
    if choose("free", 2):
        reach("free")
        want = 0
    else:
        reach("fixed")
        want = choose("port", [1, 80, 5678, 65535])
    if want and kind == "every" and choose("short", 2):
        host = ""
    addr = "tcp://" + host + ":" + (sx.text(want) if want else "0")
    if kind == "name" and "::1" == n.names["h"][0]:
        n.dualstack = True
    parser()
    try:
        q = _mp_queue.ServerMPQueue(addr, MPProtocol)
    except OSError as e:
        check(False, f"cannot listen on a valid address: {e}")
    host2, port = parse_addr_string(q.address)
    check(port == want if want else port > 0, "a listener announces another port")
    own = {"every": ["::", "0.0.0.0"], "every4": ["0.0.0.0"], "4": ["127.0.0.1"], "6": ["::1"]}.get(kind, n.names["h"])
    check(host2 in own, "a listener announces another host")
    lst = q._socket._sock
    check(lst.serves(socket.AF_INET6 if ":" in host2 else socket.AF_INET, host2), "a listener is not where it says")
    if kind in ("every", "every4"):
        check(lst.serves(socket.AF_INET, "127.0.0.1"), "a listener on every interface cannot be reached")
        check(kind != "every" or not n.dualstack or lst.serves(socket.AF_INET6, "::1"), "a listener on every interface cannot be reached by IPv6")
    else:
        check(not lst.serves(socket.AF_INET, "192.168.0.9"), "a listener on one host can be reached on others")
        check(not lst.serves(socket.AF_INET6, "2001:db8::9"), "a listener on one host can be reached on others")
    observe(host2)
