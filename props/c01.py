"""Inbound DAP framing."""

from __future__ import annotations

import json

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap
from ansibug.dap._adapter import DebugAdapterConnection


def frame(body: bytes, headers: list[bytes] | None = None) -> bytes:
    hs = []
    for h in headers or [b"Content-Length"]:
        hs.append(b"Content-Length: %d" % len(body) if h == b"Content-Length" else h)
    return b"\r\n".join(hs) + b"\r\n\r\n" + body


def msg_body(kind: int, seq: int) -> tuple[bytes, dict]:
    """(JSON text as a client may write it, what must be delivered)."""
    if kind == 0:
        d: dict = {"seq": seq, "type": "request", "command": "threads"}
        return json.dumps(d).encode(), d
    if kind == 1:
        d = {
            "seq": seq,
            "type": "request",
            "command": "setVariable",
            "arguments": {
                "variablesReference": 7,
                "name": "k\u00e9y",
                "value": "\u2028\U0001f600\r\n\r\nContent-Length: 3\r\n\r\n",
            },
        }
        return json.dumps(d, ensure_ascii=False).encode(), d
    if kind == 2:
        d = {
            "seq": seq,
            "type": "request",
            "command": "evaluate",
            "arguments": {"expression": "a: b\r\n", "frameId": 3, "context": "repl"},
        }
        text = json.dumps(d)
        # insignificant whitespace that looks like the end of a header block
        return text.replace('"arguments": ', '"arguments":\r\n\r\n').encode() + b"\r\n\r\n", d
    d = {"seq": seq, "type": "request", "command": "continue", "arguments": {"threadId": 2}}
    return json.dumps(d).encode(), d


HEADERS = [
    [b"Content-Length"],
    [b"Content-Type: application/vscode-jsonrpc; charset=utf-8", b"Content-Length"],
    [b"Content-Length", b"X-Trace: a: b: c"],
]


def same(m: dap.ProtocolMessage, d: dict) -> bool:
    if m.seq != d["seq"] or m.command.value != d["command"]:
        return False
    a = d.get("arguments", {})
    if d["command"] == "setVariable":
        return (m.variables_reference, m.name, m.value) == (7, a["name"], a["value"])
    if d["command"] == "evaluate":
        return (m.expression, m.frame_id, m.context) == (a["expression"], 3, "repl")
    if d["command"] == "continue":
        return m.thread_id == 2
    return isinstance(m, dap.ThreadsRequest)


@harness(
    "C01",
    quick={"msgs": 2, "cuts": 2},
    thorough={"msgs": 3, "cuts": 2},
    expect=["delivered-all", "waited"],
    bounds="1..msgs messages of 4 shapes x 3 header blocks, `cuts` read boundaries at any byte offsets",
)
def chunking() -> None:
    n = choose("n", list(range(1, param("msgs") + 1)))
    data = b""
    ends = []
    want = []
    for i in range(n):
        body, d = msg_body(choose(f"kind{i}", 4), i + 1)
        data += frame(body, HEADERS[choose(f"hdr{i}", 3)])
        ends.append(len(data))
        want.append(d)
    stream = sx.Stream(data)
    cuts = []
    lo = 0
    for i in range(param("cuts")):
        c = integer(f"cut{i}", 0, len(data))
        sx.assume(c >= lo)
        cuts.append(c)
        lo = c
    cuts.append(len(data))
    conn = DebugAdapterConnection()
    got = 0
    prev = 0
    for c in cuts:
        conn.receive_data(stream.piece(prev, c))
        prev = c
        while True:
            m = conn.next_message()
            if m is None:
                break
            check(got < n, "a message was delivered that was never sent")
            check(same(m, want[got]), f"message {got} delivered with different content")
            got += 1
        # delivered exactly when its last byte arrived
        for i, e in enumerate(ends):
            if i < got:
                check(c >= e, f"message {i} delivered before its last byte arrived")
            else:
                check(c < e, f"message {i} not delivered although it has arrived completely")
                reach("waited")
    check(got == n, "a complete message was never delivered")
    check(conn.next_message() is None, "a message was delivered twice")
    reach("delivered-all")
    observe(got)


@harness(
    "C01",
    quick={"len": 3},
    thorough={"len": 4},
    expect=["ok", "rejected", "waiting"],
    bounds="Content-Length header value: every string of up to `len` characters over digits, space, tab, sign, underscore, colon, letter; fixed JSON body of 46 bytes",
)
def length_header() -> None:
    body = b'{"seq": 1, "type": "request", "command": "threads"}'
    value = sx.bytestr("v", param("len"), "0123456789 \t+-_:x")
    conn = DebugAdapterConnection()
    conn.receive_data(b"Content-Length: " + value + b"\r\n\r\n" + body)
    try:
        m = conn.next_message()
    except ValueError:
        reach("rejected")
        sx.observe("rejected")
        return
    # accepted or waiting: the header must be a number, and the one that fits
    try:
        n = int(value) if not sx.symbolic() else __import__("sx.instr", fromlist=["m"]).m_int(value)
    except ValueError:
        sx.fail("a header that is not a number was accepted")
    if m is None:
        check(n > len(body), "the message was complete but not delivered")
        reach("waiting")
    else:
        check(n == len(body), "a message was delivered although its length is wrong")
        check(isinstance(m, dap.ThreadsRequest), "wrong message")
        reach("ok")
    observe(m is None)


@harness(
    "C01",
    quick={"len": 4},
    thorough={"len": 7},
    expect=["rejected", "ok"],
    bounds="message type / request command / response command / event name: any string of up to `len` lower case letters plus every known name; sequence numbers -1..4 for two messages",
)
def rejects_unknown() -> None:
    """Unknown identifiers and wrong sequence numbers are errors."""
    mode = choose("mode", ["type", "command", "event", "response", "seq"])
    if mode == "seq":
        conn = DebugAdapterConnection()
        ok = True
        for i in range(2):
            s = choose(f"seq{i}", [-1, 0, 1, 2, 3, 4])
            d = {"seq": s, "type": "request", "command": "threads"}
            conn.receive_data(frame(json.dumps(d).encode()))
            try:
                m = conn.next_message()
            except ValueError:
                check(s != i + 1, "the expected sequence number was rejected")
                reach("rejected")
                return
            check(m is not None and s == i + 1, "an out of order message was delivered")
        reach("ok")
        return
    names = {
        "type": ["request", "response", "event"],
        "command": [c.value for c in dap.Command] if hasattr(dap, "Command") else [],
        "response": [],
        "event": [],
    }
    from ansibug.dap._messages import Command, EventType

    known = {
        "type": ["request", "response", "event"],
        "command": [c.value for c in Command],
        "response": [c.value for c in Command],
        "event": [e.value for e in EventType],
    }[mode]
    if choose("known", [False, True]):
        text = sx.enum("name", known)
    else:
        text = sx.string("s", param("len"), [(97, 122)])
    d = {"seq": 1, "type": "request", "command": "threads"}
    if mode == "type":
        d["type"] = text
        d["success"] = False
        d["event"] = "nope"
        d["request_seq"] = 0
    elif mode == "command":
        d["command"] = text
    elif mode == "response":
        d = {"seq": 1, "type": "response", "request_seq": 1, "success": True, "command": text}
    else:
        d = {"seq": 1, "type": "event", "event": text}
    try:
        m = dap.ProtocolMessage.unpack(d)
    except ValueError:
        reach("rejected")
        if mode == "command":
            check(
                sx.not_(sx.any_([text == k for k in IMPLEMENTED])),
                "an implemented request was rejected",
            )
        return
    except (TypeError, KeyError):
        # a known name whose mandatory fields are missing here
        check(sx.any_([text == k for k in known]), "unknown name was dispatched")
        if mode == "command":
            check(
                sx.not_(sx.any_([text == k for k in IMPLEMENTED])),
                "an implemented request was rejected",
            )
        return
    check(
        sx.any_([text == k for k in known]),
        f"a message of an unknown {mode} was accepted",
    )
    if mode in ("command", "response"):
        check(m.command.value == text, "delivered as a different command")
    elif mode == "event":
        check(m.event.value == text, "delivered as a different event")
    else:
        check(m.message_type.value == text, "delivered as a different type")
    reach("ok")


IMPLEMENTED = [
    "configurationDone",
    "disconnect",
    "terminate",
    "threads",
]
