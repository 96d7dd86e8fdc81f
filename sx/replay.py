"""Concrete mode: the unmodified code of /repo, values from a solver model.

Run by /opt/venv/bin/python.  Either a server (JSON lines on stdin) or, with a
file argument, a replay of one recorded counterexample.
"""

from __future__ import annotations

import importlib
import json
import logging
import os
import sys

REPO = os.environ.get("SX_REPO", "/repo")


def setup() -> None:
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "src"))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)


def run(req: dict) -> dict:
    from sx import api, core, execute

    mod = importlib.import_module(req["module"])
    del mod
    h = api.HARNESSES[req["harness"]]
    c = core.ConcreteCtx(req["assignment"])
    c.params = h.params[req["tier"]]
    res = execute.run_once(h, c, req.get("hang_s", 20))
    res["observations"] = api.canon(c.observations)
    res["labels"] = sorted(c.labels)
    return res


def main() -> None:
    setup()
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        res = run(req)
        print(json.dumps(res, indent=1))
        os._exit(1 if res["end"] == "violation" else 0)
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run(req)
        except BaseException as e:  # report, the parent decides
            res = {"end": "error", "msg": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
