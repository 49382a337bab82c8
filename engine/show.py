"""Pretty-print facts (for humans)."""
import json, sys

def load(p):
    return json.load(open(p))

def place(F, p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*": s = "(*%s)" % s
        elif e[0] == "f": s += ".%s" % e[4] if e[4] else ".%d" % e[1]
        elif e[0] == "d": s = "(%s as %s)" % (s, e[2])
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += str(e)
    return s

def const(c):
    return json.dumps(c)[:80]

def op(F, o):
    if o[0] in "cm": return ("move " if o[0] == "m" else "") + place(F, o[1])
    if o[0] == "k": return "const " + const(o[2])
    return str(o)

def rv(F, r):
    k = r[0]
    if k == "use": return op(F, r[1])
    if k == "ref": return "&" + ("mut " if r[2] else "") + place(F, r[1])
    if k == "cast": return "%s as %s (%s)%s" % (op(F, r[2]), F["types"][r[3]]["s"], r[1], " vt" if r[5] else "")
    if k == "bin": return "%s(%s, %s)" % (r[1], op(F, r[2]), op(F, r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(F, r[2]))
    if k == "discr": return "discr(%s)" % place(F, r[1])
    if k == "agg": return "agg %s %s v%d (%s)" % (r[1], F["types"][r[4]]["s"][:60], r[2], ", ".join(op(F, x) for x in r[3]))
    return str(r)

def show(F, i):
    b = i.get("body")
    print("fn #%d %s   %s" % (i["id"], i["full"], i["span"]))
    if not b: print("   (no body)"); return
    for k, l in enumerate(b["locals"]):
        print("   _%d: %s %s" % (k, F["types"][l[0]]["s"][:150], l[1] or ""))
    for n, bl in enumerate(b["blocks"]):
        if bl is None: continue
        print(" bb%d:" % n)
        for s in bl[0]:
            if s[0] == "=": print("    %s = %s" % (place(F, s[1]), rv(F, s[2])))
            elif s[0] != "dead": print("   ", s)
        t = bl[1]
        if t[0] == "call":
            c = t[1]
            print("    %s = CALL %s [%s] inst=%s (%s) -> %s" % (place(F, t[3]), c.get("path"), c.get("model") or c.get("rpath", ""), c.get("inst"), ", ".join(op(F, x) for x in t[2]), t[4]))
        elif t[0] == "switch":
            print("    SWITCH %s %s else %s" % (op(F, t[1]), t[2], t[3]))
        elif t[0] == "drop":
            print("    DROP %s -> %s" % (place(F, t[1]), t[2]))
        else:
            print("   ", t)

if __name__ == "__main__":
    F = load(sys.argv[1])
    if len(sys.argv) == 2:
        for i in F["instances"]:
            print(i["id"], i["crate"], i["full"][:160], "" if "body" in i else "(leaf)")
    else:
        for i in F["instances"]:
            if sys.argv[2] == str(i["id"]) or (not sys.argv[2].isdigit() and sys.argv[2] in i["full"]):
                show(F, i)
