"""Unix sockets belong to their user alone."""

from __future__ import annotations

import errno
import os
import socket

import sx
from sx import check, choose, harness, integer, observe, param, reach, string
from sx.sched import Sched, install

from ansibug import _mp_queue, _socket_helper
from ansibug._mp_queue import MPProtocol, ServerMPQueue
from ansibug._socket_helper import create_uds_with_mask

from .net import Net

ERRORS = [errno.EINVAL, errno.EPERM, errno.EACCES, errno.EBADF]


def system() -> Net:
    Sched(delays=0)
    install()
    n = Net()
    n.install(_socket_helper, _mp_queue)
    n.umask = integer("umask", 0, 0o777)
    return n


@harness(
    "C24",
    quick={"len": 2},
    thorough={"len": 4},
    expect=["made", "closed", "taken", "refused", "fallback"],
    bounds="listeners on a new Unix socket and on named ones (every name of up to `len` characters) under every umask, in folders with 4 sets of permissions; systems where permissions can be set before the socket is bound and ones where they cannot; failures of either step",
    stubs="sockets have the semantics of Linux (props/net.py): a Unix socket gets the permissions set on it before, less the umask",
)
def listener() -> None:
    n = system()
    before = n.umask
    n.fchmod_error = choose("fchmod", [0, *ERRORS])
    n.bind_error = choose("bind", [0, errno.EADDRINUSE, errno.EACCES])
    named = choose("named", 2)
    os.chmod(n.dir, choose("folder", [0o700, 0o777] if named else [0o1777, 0o775]))
    addr = "uds://" + (sx.concrete(string("name", param("len"), "a.#", minlen=1)) if named else "")
    taken = None
    if addr in ("uds://.", "uds://.."):
        sx.stop_path()
    if named and not n.bind_error and choose("taken", 2):
        taken = os.path.join(n.dir, addr[6:])
        open(taken, "w").close()
    try:
        q = ServerMPQueue(addr, MPProtocol)
    except OSError as e:
        reach("taken" if taken else "refused")
        check(bool(taken or n.bind_error or n.fchmod_error not in (0, errno.EINVAL)), "a Unix socket cannot be made")
        check(e.errno != errno.EINVAL or n.fchmod_error == errno.EINVAL, "another error is reported")
        check(n.umask == before, "a failure leaves another umask for the playbook")
        check(os.listdir(n.dir) == ([addr[6:]] if taken else []), "a failure removes the socket of somebody else, or leaves one behind")
        observe(e.errno)
        return
    check(not taken and not n.bind_error, "somebody else's socket is used")
    check(n.fchmod_error in (0, errno.EINVAL), "a socket is made though its permissions could not be set")
    reach("fallback" if n.fchmod_error else "made")
    sock = q._socket._sock
    check(sock.family == socket.AF_UNIX and sock.backlog is not None, "nothing listens on the socket")
    check((sock.made & 0o077) == 0, "other users can connect to the Unix socket")
    check(sx.any_(n.fchmod_error != 0, (before & 0o700) != 0, (sock.made & 0o700) == 0o700), "the user cannot connect to the Unix socket")
    check(sx.any_(n.fchmod_error == 0, (sock.made & 0o700) == 0o700), "the user cannot connect to the Unix socket")
    check(n.umask == before, "the playbook runs with another umask")
    q.stop()
    check(os.listdir(n.dir) == [], "the file of a Unix socket is left behind")
    check(sock.closed, "a listener is left open")
    reach("closed")
    observe(len(n.umasks))


@harness(
    "C24",
    quick={},
    thorough={},
    expect=["made", "refused", "fallback"],
    bounds="sockets made with 8 sets of permissions under every umask; systems where permissions can be set before the socket is bound and ones where they cannot; failures of either step",
    stubs="sockets have the semantics of Linux (props/net.py)",
)
def permissions() -> None:
    n = system()
    before = n.umask
    n.fchmod_error = choose("fchmod", [0, *ERRORS])
    n.bind_error = choose("bind", [0, errno.EADDRINUSE])
    mask = choose("mask", [0o700, 0o600, 0o770, 0o660, 0o777, 0o200, 0o707, 0])
    try:
        sock = create_uds_with_mask(os.path.join(n.dir, "s"), mask)
    except OSError as e:
        reach("refused")
        check(bool(n.bind_error or n.fchmod_error not in (0, errno.EINVAL)), "a Unix socket cannot be made")
        check(e.errno == (n.fchmod_error if n.fchmod_error not in (0, errno.EINVAL) else n.bind_error), "another error is reported")
        check(n.umask == before, "a failure leaves another umask for the playbook")
        return
    check(n.fchmod_error in (0, errno.EINVAL), "a socket is made though its permissions could not be set")
    check((sock.made & (0o777 & ~mask)) == 0, "a Unix socket has more permissions than asked for")
    if n.fchmod_error:
        reach("fallback")
        check(sock.made == mask, "a Unix socket has other permissions than asked for")
    else:
        reach("made")
        check(sock.made == mask - (before & mask), "a Unix socket has other permissions than asked for")
    check(n.umask == before, "the playbook runs with another umask")
