"""Outbound DAP framing."""

from __future__ import annotations

import json

import sx
from sx import check, choose, harness, integer, observe, param, reach

import ansibug.dap as dap
from ansibug.dap._adapter import DebugAdapterConnection

TEXTS = ["", "plain", "caf\u00e9 \u2028 \U0001f600", "a\r\n\r\nContent-Length: 1\r\n\r\n", "\ud83d lone \x00\x7f"]


def make(kind: int, text: str) -> tuple[dap.ProtocolMessage, dict]:
    if kind == 0:
        m: dap.ProtocolMessage = dap.OutputEvent(category="stdout", output=text)
        return m, {"type": "event", "event": "output", ("body", "output"): text}
    if kind == 1:
        m = dap.VariablesResponse(
            request_seq=4,
            variables=[dap.Variable(name=text, value=text + text, variables_reference=3)],
        )
        return m, {
            "type": "response",
            "command": "variables",
            "success": True,
            "request_seq": 4,
            ("body", "variables", 0, "name"): text,
            ("body", "variables", 0, "value"): text + text,
            ("body", "variables", 0, "variablesReference"): 3,
        }
    m = dap.StoppedEvent(reason=dap.StoppedReason.EXCEPTION, thread_id=2, text=text)
    return m, {
        "type": "event",
        "event": "stopped",
        ("body", "reason"): "exception",
        ("body", "threadId"): 2,
        ("body", "text"): text,
    }


def get(d: object, key: object) -> object:
    if isinstance(key, tuple):
        for k in key:
            d = d[k]  # type: ignore[index]
        return d
    return d[key]  # type: ignore[index]


def parse(stream: bytes) -> list:
    """Frames of a byte stream, strictly."""
    out = []
    while stream:
        head, sep, rest = stream.partition(b"\r\n\r\n")
        check(bool(sep), "bytes without a header block were sent")
        hs = {}
        for line in head.split(b"\r\n"):
            k, s, v = line.partition(b": ")
            check(bool(s), "malformed header line was sent")
            hs[k.lower()] = v
        check(b"content-length" in hs and hs[b"content-length"].isdigit(), "no Content-Length was sent")
        n = int(hs[b"content-length"])
        check(len(rest) >= n, "Content-Length is larger than the bytes that follow")
        try:
            out.append(json.loads(rest[:n].decode("utf-8")))
        except ValueError:
            sx.fail("Content-Length does not delimit one JSON document")
        stream = rest[n:]
    return out


@harness(
    "C02",
    quick={"msgs": 2, "sends": 2},
    thorough={"msgs": 3, "sends": 3},
    expect=["partial", "complete"],
    bounds="1..msgs messages of 3 shapes x 5 texts (ASCII, non-ASCII, astral, lone surrogate, header look-alike); after each message up to `sends` partial sends of any size -1..total",
)
def frames() -> None:
    n = choose("n", list(range(1, param("msgs") + 1)))
    conn = DebugAdapterConnection()
    sent = b""
    wants = []
    for i in range(n):
        kind = choose(f"kind{i}", 3 if i == 0 else 2)
        m, want = make(kind, TEXTS[choose(f"text{i}", len(TEXTS) if i == 0 else 3)])
        seq = conn.queue_msg(m)
        check(seq == i + 1, "the sequence number reported is not the next one")
        check(m.seq == seq, "message does not carry its sequence number")
        wants.append(want)
        for j in range(choose(f"sends{i}", param("sends") + 1 if i == 0 else 2)):
            size = integer(f"size{i}_{j}", -1, 400)
            part = conn.data_to_send(size)
            check(sx.any_(size < 0, sx.length(part) <= size), "more bytes than asked for were returned")
            if sx.length(part) > 0:
                reach("partial")
            sent = sent + part
    sent = sent + conn.data_to_send()
    check(sx.length(conn.data_to_send()) == 0, "bytes are returned twice")
    sent = bytes(sx.concrete(sent))
    frames_ = parse(sent)
    check(len(frames_) == n, "the stream does not hold exactly the queued messages")
    for i, (f, want) in enumerate(zip(frames_, wants)):
        check(f.get("seq") == i + 1, "sequence numbers on the wire are not 1, 2, 3, ...")
        for k, v in want.items():
            try:
                got = get(f, k)
            except (KeyError, IndexError, TypeError):
                sx.fail(f"field {k} is missing on the wire")
            check(got == v, f"field {k} was altered on the wire")
    reach("complete")
    observe(len(sent))
