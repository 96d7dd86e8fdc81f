"""Decides one property: explores its harnesses symbolically, in parallel.

usage: python3-vt -m sx.run C01 [--tier quick|thorough] [--only HARNESS]
"""

from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import resource
import select
import subprocess
import sys
import tempfile
import time
import traceback
import typing as t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
PROJECT_PY = os.environ.get("SX_PROJECT_PY", "/opt/venv/bin/python")
SITE = "/opt/venv/lib/python3.12/site-packages"
HANG_SYM = 90.0
HANG_REAL = 20.0


class Replayer:
    """Concrete runs of the unmodified code in the project's interpreter."""

    def __init__(self, module: str, tier: str) -> None:
        self.module = module
        self.tier = tier
        self.p: subprocess.Popen | None = None
        self.err: t.Any = None

    def _start(self) -> subprocess.Popen:
        env = dict(os.environ)
        env.update(
            PYTHONPATH=HERE,
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            LC_ALL="C.UTF-8",
            SX_REPO=REPO,
        )
        self.p = subprocess.Popen(
            [PROJECT_PY, "-m", "sx.replay"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.errfile(),
            env=env,
            cwd=HERE,
            text=True,
            bufsize=1,
        )
        return self.p

    def request(self, harness: str, assignment: dict) -> dict:
        return {
            "module": self.module,
            "tier": self.tier,
            "harness": harness,
            "assignment": assignment,
            "hang_s": HANG_REAL,
        }

    def run(self, harness: str, assignment: dict) -> dict:
        p = self.p or self._start()
        assert p.stdin and p.stdout
        try:
            p.stdin.write(json.dumps(self.request(harness, assignment)) + "\n")
            p.stdin.flush()
        except BrokenPipeError:
            return {"end": "error", "msg": "replay process died: " + self._err()}
        r, _, _ = select.select([p.stdout], [], [], HANG_REAL + 30)
        if not r:
            self.close()
            return {"end": "violation", "msg": "does not terminate", "kind": "hang"}
        line = p.stdout.readline()
        if not line:
            msg = self._err()
            self.close()
            return {"end": "error", "msg": "replay process died: " + msg}
        return json.loads(line)

    def errfile(self) -> t.Any:
        if os.environ.get("SX_DEBUG"):
            return None
        self.err = tempfile.TemporaryFile("w+")
        return self.err

    def _err(self) -> str:
        try:
            self.err.seek(0)  # type: ignore[union-attr]
            return self.err.read()[-3000:]  # type: ignore[union-attr]
        except Exception:
            return ""

    def close(self) -> None:
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def load(module: str) -> t.Any:
    """Import the harness module with /repo's code instrumented."""
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.path.append(SITE)
    from . import instr

    instr.install(os.path.join(REPO, "src"))
    sys.path.insert(0, os.path.join(REPO, "src"))
    return importlib.import_module(module)


def worker(conn: t.Any, module: str, tier: str) -> None:
    from . import api, core, execute, instr
    from .api import canon, realize

    rep = Replayer(module, tier)
    validated_per: dict[str, int] = {}
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            hname, prefix, slice_s, deadline = msg
            h = api.HARNESSES[hname]
            stats = core.Stats()
            solver = core.Solver(stats)
            stack = [prefix]
            out: dict = {
                "harness": hname,
                "labels": set(),
                "validated": 0,
                "errors": [],
                "violations": [],
                "samples": [],
            }
            instr.ENTERED.clear()
            t_end = time.monotonic() + slice_s
            seed = int(os.environ.get("VERIF_SEED", "1") or "1")
            while stack and time.monotonic() < t_end:
                p = stack.pop()
                c = core.SymCtx(solver, stats, p, deadline)
                c.params = h.params[tier]
                res = execute.run_once(h, c, HANG_SYM)
                stack.extend(c.alternatives)
                if res["end"] == "infeasible":
                    stats.infeasible += 1
                    continue
                stats.paths += 1
                out["labels"] |= c.labels
                if res["end"] == "error":
                    out["errors"].append(res["msg"])
                    break
                core.set_ctx(c)
                try:
                    asg = c.assignment()
                except core.Infeasible:
                    stats.paths -= 1
                    stats.infeasible += 1
                    continue
                except core.Inconclusive as e:
                    out["errors"].append(str(e))
                    break
                if res["end"] == "violation":
                    real = rep.run(hname, asg)
                    entry = {
                        "harness": hname,
                        "msg": res["msg"],
                        "kind": res.get("kind"),
                        "tb": res.get("tb"),
                        "assignment": asg,
                        "real": real,
                    }
                    if real["end"] == "violation":
                        out["violations"].append(entry)
                    else:
                        out["errors"].append(
                            "counterexample does not reproduce on the real code: "
                            + json.dumps(entry, default=str)[:4000]
                        )
                    break
                n = validated_per.get(hname, 0)
                if n < 150 or (stats.paths + seed) % 8 == 0:
                    validated_per[hname] = n + 1
                    obs = canon(realize(list(c.observations), c._get_model()))
                    real = rep.run(hname, asg)
                    if (
                        real["end"] != "ok"
                        or real.get("observations") != obs
                        or set(real.get("labels", [])) != c.labels
                    ):
                        if real["end"] == "violation":
                            # a real failure the symbolic semantics missed is an
                            # engine defect; it still reproduces, so report it
                            out["violations"].append(
                                {
                                    "harness": hname,
                                    "msg": "path replay: " + str(real.get("msg")),
                                    "kind": "replay",
                                    "assignment": asg,
                                    "real": real,
                                }
                            )
                        else:
                            out["errors"].append(
                                "explored path disagrees with the real code: "
                                + json.dumps(
                                    {
                                        "assignment": asg,
                                        "expected": obs,
                                        "labels": sorted(c.labels),
                                        "real": real,
                                    },
                                    default=str,
                                )[:4000]
                            )
                        break
                    out["validated"] += 1
                    if n < 2:
                        out["samples"].append(
                            {
                                "harness": hname,
                                "assignment": dict(list(asg.items())[:24]),
                                "observed": str(obs)[:400],
                                "decisions": len(c.trace),
                            }
                        )
            out["left"] = stack
            out["stats"] = stats.as_dict()
            out["entered"] = set(instr.ENTERED)
            core.set_ctx(None)
            conn.send(out)
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        conn.send({"fatal": traceback.format_exc()})
    finally:
        rep.close()
        os._exit(0)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SX_WORKERS", "8")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop: str = a.prop
    module = f"props.{prop.lower()}"
    os.environ.setdefault("LC_ALL", "C.UTF-8")
    try:
        load(module)
    except BaseException:
        # The code does not load under the engine: no answer.
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: harness module failed to load")
        return 2
    from . import api, core

    hs = [h for h in api.HARNESSES.values() if h.prop == prop]
    if a.tier == "quick":
        hs = [h for h in hs if not h.thorough_only]
    if a.only:
        hs = [h for h in hs if h.name == a.only or h.func.__name__ == a.only]
    if not hs:
        print("no harness")
        return 2
    mpc = mp.get_context("fork")
    conns = []
    procs = []
    for _ in range(a.workers):
        x, y = mpc.Pipe()
        p = mpc.Process(target=worker, args=(y, module, a.tier), daemon=False)
        p.start()
        y.close()
        conns.append(x)
        procs.append(p)
    total = core.Stats()
    per: dict[str, dict] = {
        h.name: {"stats": core.Stats(), "labels": set(), "validated": 0, "open": 1, "done_s": None}
        for h in hs
    }
    start = time.monotonic()
    deadlines = {h.name: start + h.budget[a.tier] for h in hs}
    queue: list = [(h.name, []) for h in hs]
    idle = list(conns)
    busy: dict = {}
    errors: list[str] = []
    violations: list[dict] = []
    samples: list = []
    entered: set[str] = set()
    stop = False
    while (queue or busy) and not stop:
        while queue and idle:
            c = idle.pop()
            hname, prefix = queue.pop()
            sl = 0.25 if len(queue) < a.workers else 1.5
            c.send((hname, prefix, sl, deadlines[hname]))
            busy[c] = hname
        for c in mp.connection.wait(list(busy), timeout=5):
            try:
                out = c.recv()
            except EOFError:
                errors.append("a worker died (memory?)")
                stop = True
                busy.pop(c)
                continue
            hname = busy.pop(c)
            if "fatal" in out:
                errors.append(out["fatal"])
                stop = True
                continue
            idle.append(c)
            r = per[hname]
            r["stats"].add(out["stats"])
            total.add(out["stats"])
            r["labels"] |= out["labels"]
            r["validated"] += out["validated"]
            r["open"] += len(out["left"]) - 1
            entered |= out["entered"]
            if len([s for s in samples if s["harness"] == hname]) < 2:
                samples += out["samples"][:1]
            errors += [f"{hname}: {e}" for e in out["errors"]]
            violations += out["violations"]
            queue += [(hname, p) for p in out["left"]]
            if r["open"] == 0:
                r["done_s"] = round(time.monotonic() - start, 2)
            if violations or errors:
                stop = True
    for c in conns:
        try:
            c.send(None)
        except Exception:
            pass
    for p in procs:
        p.join(1)
        if p.is_alive():
            p.kill()
    subprocess.run(["true"])
    wall = time.time() - t0
    if not violations and not errors:
        for h in hs:
            missing = [l for l in h.expect if l not in per[h.name]["labels"]]
            if missing:
                errors.append(f"{h.name}: never reached {missing} (vacuous)")
    for h in hs:
        r = per[h.name]
        s = r["stats"]
        print(
            f"{h.name}: paths={s.paths} infeasible={s.infeasible} decisions={s.decisions} "
            f"queries={s.queries} checks={s.checks} check_queries={s.check_queries} "
            f"solver_s={s.solver_s:.2f} validated={r['validated']} done={r['done_s']}"
        )
    rc = 0
    if violations:
        v = violations[0]
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{v['harness']}.json")
        rep = Replayer(module, a.tier)
        req = rep.request(v["harness"], v["assignment"])
        req.update({"message": v["msg"], "kind": v["kind"], "tb": v.get("tb"), "real": v["real"]})
        req["how"] = f"cd /verif && ./replay {path}"
        with open(path, "w") as f:
            json.dump(req, f, indent=1)
        print(f"{v['harness']}: {v['msg']}")
        print("  real run: " + str(v["real"].get("msg")))
        print("  assignment: " + json.dumps(v["assignment"])[:1500])
        if v.get("tb"):
            print(v["tb"])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        for e in errors[:5]:
            print("INCONCLUSIVE " + e)
        rc = 2
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or "1"),
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.decisions,
            "traces_validated_against_impl": sum(r["validated"] for r in per.values()),
            "samples": samples or [{"none": True}],
            "infeasible_paths": total.infeasible,
            "solver_queries": total.queries,
            "assertions_checked": total.checks,
            "assertions_decided_by_query": total.check_queries,
            "forks": total.forks,
            "solver_s": round(total.solver_s, 3),
            "functions_encoded": sorted(entered),
            "exhaustive_within_bounds": rc == 0,
            "harnesses": {
                h.name: {
                    "bounds": h.bounds,
                    "stubs": h.stubs,
                    "params": h.params[a.tier],
                    "paths": per[h.name]["stats"].paths,
                    "queries": per[h.name]["stats"].queries,
                    "solver_s": round(per[h.name]["stats"].solver_s, 3),
                    "reached": sorted(per[h.name]["labels"]),
                    "finished_at_s": per[h.name]["done_s"],
                }
                for h in hs
            },
        },
        "assumptions": sorted({h.stubs for h in hs if h.stubs}),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    ru = resource.getrusage(resource.RUSAGE_CHILDREN)
    print(f"{prop}: exit {rc}, {wall:.1f} s wall, {ru.ru_utime:.1f} s cpu")
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
