"""one.py PROP law-suffix [-v]: run the laws of a property whose name contains the suffix (for humans)"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json
sys.path.insert(0, "/verif/engine")
sys.setrecursionlimit(20000)
import props, laws
F = json.load(open(os.environ.get("FACTS", "/verif/build/facts.json")))
key, pat = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
for n, i in F["roots"]:
    if props.opts_of(key)["pat"] in n and pat in n:
        r = laws.run(F, n, i, props.opts_of(key))
        o = r["obligations"]
        print("%-40s %.1fs steps=%d err=%s %s" % (n, r["wall"], r["steps"], r["error"], " ".join("%s:%s" % (l, {True: "ok", False: "NO", None: "?"}[v]) for l, v, _ in o)))
        for l, v, w in o:
            if v is not True:
                print("     ", l, v, str(w)[:700])
        if "-u" in sys.argv:
            for k, v in sorted(r["unmodelled"].items()):
                print("   unmodelled", v, k)
