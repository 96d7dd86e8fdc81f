"""Where paths fork: python3-vt -m sx.prof C02 frames [n] (development aid)."""
import collections
import sys
import traceback


def main() -> None:
    prop, name = sys.argv[1:3]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 300
    from . import run, api, core, execute

    run.load("props." + prop.lower())
    cnt: collections.Counter = collections.Counter()
    for meth in ("concretize_int", "branch"):
        orig = getattr(core.SymCtx, meth)

        def f(self, e, orig=orig, meth=meth):
            before = len(self.alternatives)
            r = orig(self, e)
            if len(self.alternatives) > before:
                fr = [
                    f"{x.filename.split('/')[-1]}:{x.lineno}:{x.name}"
                    for x in traceback.extract_stack(limit=9)[:-1]
                ]
                cnt[meth + " " + " > ".join(fr)] += len(self.alternatives) - before
            return r

        setattr(core.SymCtx, meth, f)
    h = api.HARNESSES[f"{prop}.{name}"]
    st = core.Stats()
    so = core.Solver(st)
    stack = [[]]
    k = 0
    import time

    t0 = time.time()
    while stack and k < n:
        p = stack.pop()
        c = core.SymCtx(so, st, p, None)
        c.params = h.params["quick"]
        r = execute.run_once(h, c, 90)
        if r["end"] not in ("ok", "infeasible"):
            print(r)
        stack.extend(c.alternatives)
        k += 1
    print("paths", k, "left", len(stack), "s", round(time.time() - t0, 2), st.as_dict())
    for key, v in cnt.most_common(8):
        print(v, key)


main()
