"""Run laws and print what was decided (for humans)."""
import sys, json, time
sys.path.insert(0, "/verif/engine")
from term import *
import ai, equal

def main():
    F = json.load(open(sys.argv[1]))
    pat = sys.argv[2]
    verbose = "-v" in sys.argv
    for name, iid in F["roots"]:
        if pat not in name:
            continue
        t0 = time.time()
        E = ai.Engine(F)
        try:
            res = run_law(E, iid)
        except Exception as e:
            if verbose:
                raise
            print("%-60s EXC %s %s" % (name, type(e).__name__, str(e)[:200]))
            continue
        out = []
        for kind, ctx, bb, st, kw in E.log:
            if kind == "same":
                w, a, b = kw["vals"]
                c = equal.Cmp(E, st)
                r = c.eq(st.facts, a, b)
                out.append((w.a[0], r, c.why))
                if verbose:
                    print("   ", w.a[0], r, "\n       got", fmt(a)[:600], "\n      want", fmt(b)[:600])
            elif kind == "holds":
                w, a = kw["vals"]
                v = ai.value(st.facts, a)
                c = equal.Cmp(E, st)
                r = c.eq(st.facts, a, TRUE)
                out.append((w.a[0], r, c.why))
                if verbose:
                    print("   ", w.a[0], r, fmt(a)[:600])
            elif kind == "never":
                out.append((kw["vals"][0].a[0], False, "reached"))
            elif kind == "see" and verbose:
                print("    see", fmt(kw["vals"][0]), fmt(kw["vals"][1])[:2000])
        s = " ".join("%s:%s" % (w, {True: "ok", False: "DIFF", None: "?"}[r]) for w, r, _ in out)
        print("%-50s %.1fs rets=%d %s" % (name, time.time() - t0, len(res), s))
        for w, r, why in out:
            if r is not True:
                print("      ", w, r, why)
        if verbose or "-u" in sys.argv:
            for k, v in sorted(E.unmodelled.items(), key=lambda x: str(x[0])):
                print("    unmodelled", v, k)


def run_law(E, iid):
    ins = E.inst[iid]
    st = ai.State()
    args = E.sym_args(iid, st)
    return E.run_root(iid, args, st)


if __name__ == "__main__":
    main()
