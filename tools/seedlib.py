"""Plant a change: write seeded/<id>/ and confirm it (build, stable tests, demo both ways, check).

Usage: python3 tools/seedlib.py <specs.py> [id ...]     specs.py defines SEEDS, a list of dicts.
The change is applied to /repo only while its tests and check run, and undone straight afterwards.
"""
import json, os, subprocess, sys, runpy, time

V = "/verif"
R = "/repo"
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 HOME="${HOME:-/root}" LC_ALL=C.UTF-8\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null\n'


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)


def clean():
    run(f"git -C {R} checkout -- .")


def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for s in specs:
        if only and s["id"] not in only:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        assert run(f"git -C {R} status --porcelain").stdout.strip() == "", "repo not clean"
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/src/ansibug/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            open(f"{d}/patch.diff", "w").write(run(f"git -C {R} diff").stdout)
            open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(f"{d}/demo.sh", "w").write(SH)
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            bad = run(f"bash {d}/demo.sh", cwd=R)
            b = run("bash /opt/vp/build.sh")
            run("bash /opt/vp/test.sh /tmp/seed_o.json")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            got = set(json.load(open("/tmp/seed_o.json"))["passed"])
            missing = [x for x in base if x not in got]
            t0 = time.time()
            c = run(f"cd {V} && ./check {s['property']} quick")
            t1 = time.time() - t0
        finally:
            clean()
        good = run(f"bash {d}/demo.sh", cwd=R)
        viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        verdict = "ok" if good.returncode == 0 and bad.returncode != 0 and b.returncode == 0 and not missing else "BAD SEED"
        print(f"{s['id']}: {verdict} demo clean={good.returncode} bug={bad.returncode} build={b.returncode} missing={missing[:3]} | check {s['property']} exit={c.returncode} {'CAUGHT' if c.returncode == 1 and viol else 'MISSED'} {t1:.0f}s", flush=True)
        if good.returncode:
            print("   ", good.stderr[-400:], good.stdout[-300:])
        if c.returncode not in (0, 1) or not viol:
            print("   ", c.stdout[-600:], c.stderr[-300:])


main()
