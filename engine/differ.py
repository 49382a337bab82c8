"""When two values which are not the same are certainly different: only for shapes where nothing the analysis does
not look into could make them equal after all."""
from term import *
import ai

ATOMS = ("eq", "lt", "slt", "not", "and", "feq", "fle", "flt")
PATHAPPS = ("chars", "slice", "offset", "subto", "but_last")


def path(t):
    """t is a part of the arguments, got at by fields, elements and variants"""
    while True:
        k = t.k
        if k == "sym":
            return True
        if k == "fld":
            t = t.a[0]
        elif k == "idx":
            if not (index(t.a[1])):
                return False
            t = t.a[0]
        elif k in ("len", "discr"):
            t = t.a[0]
        elif k == "app" and (t.a[0] in PATHAPPS):
            if not all(index(x) for x in t.a[1][1:]):
                return False
            t = t.a[1][0]
        else:
            return False


def index(t):
    return t.k in ("int", "iv", "bv", "sym") or path(t) or t.k == "poly" and all(index(x) for m, _ in t.a[0] for x in m)


def arith(t):
    return t.k == "int" or path(t) or index(t) or t.k == "app" and t.a[0].startswith("cast:") and arith(t.a[1][0])


def root(t):
    while t.k in ("fld", "idx", "len", "discr") or t.k == "app" and t.a[0] in PATHAPPS:
        t = t.a[0] if t.k != "app" else t.a[1][0]
    return t


def atom(t):
    """a condition whose truth the arguments can decide either way"""
    if path(t):
        return True
    if t.k != "app" or t.a[0] not in ATOMS:
        return False
    return all(x.k in CONSTK or arith(x) or atom(x) or free(x) for x in t.a[1])


def free(t):
    """a value that depends on the arguments through one known function"""
    if path(t):
        return True
    if t.k == "app":
        n = t.a[0]
        if n.startswith("p:") or n in ("dec", "fdisp", "chr", "min", "f", "i2f", "fneg") or n.startswith(("cast:", "f2f:", "f")):
            return any(free(x) for x in t.a[1])
        return False
    if t.k in ("fld", "discr", "len", "idx"):
        return free(t.a[0])
    if t.k == "poly":
        return all(free(x) for m, _ in t.a[0] for x in m)
    return False


def heads(t):
    return t.a[0] if t.k == "app" else t.k


def differ(E, facts, a, b, d=0):
    """True: a and b are different for some arguments which fit the facts; None: cannot say"""
    if a is b or d > 12:
        return None
    for x, y in ((a, b), (b, a)):
        if x.k in CONSTK:
            if y.k in CONSTK:
                return True
            if free(y) or atom(y):
                return True
            if x.k == "str":
                if y.k == "cat":
                    return catdiff(E, facts, x, y, d)
                if y.k == "comp" and inhabited(y):
                    return True
            if y.k == "poly" and x.k == "int" and free(y):
                return True
            if y.k == "agg":
                return True
            return None
    if a.k == "agg" and b.k == "agg":
        if a.a[1] != b.a[1]:
            return True
        if len(a.a[2]) != len(b.a[2]):
            return True
        return True if any(differ(E, facts, x, y, d + 1) for x, y in zip(a.a[2], b.a[2])) else None
    for x, y in ((a, b), (b, a)):
        if x.k == "agg":
            if x.a[0] == "array":
                n = Len(y)
                if n.k == "int" and n.a[0] != len(x.a[2]):
                    return True
                if path(y):
                    return True
                if y.k == "comp" and inhabited(y):
                    return True
                if y.k == "snoc":
                    m = SubI(n, Int(len(x.a[2])))
                    if m.k == "int" and m.a[0] != 0:
                        return True
                return None
            if y.k == "with":
                return None
            return True if free(y) else None
    if path(a) and path(b):
        return True
    if a.k == "poly" or b.k == "poly":
        m = SubI(a, b)
        if m.k == "int":
            return True if m.a[0] else None
        return True if free(m) and free(a) and free(b) else None
    if a.k == "app" and b.k == "app" and a.a[0] == b.a[0]:
        n = a.a[0]
        if n in ("eq", "lt", "slt", "feq", "fle", "flt", "not"):
            if atom(a) and atom(b):
                return True
            return None
        if len(a.a[1]) == len(b.a[1]):
            return True if any(differ(E, facts, x, y, d + 1) for x, y in zip(a.a[1], b.a[1])) else None
        return None
    if a.k == "cat" or b.k == "cat":
        return catdiff(E, facts, a, b, d)
    for x, y in ((a, b), (b, a)):
        if x.k == "app" and path(y):
            # a function of the arguments against a part of them
            if x.a[0].startswith("cast:") or x.a[0].startswith("p:") or x.a[0] in ("dec", "fdisp", "chr", "not"):
                return True if free(x) or atom(x) else None
            if x.a[0] in ("eq", "lt", "slt", "feq", "fle", "flt"):
                return True if atom(x) else None
    if a.k == "app" and b.k == "app":
        na, nb = a.a[0], b.a[0]
        if na.startswith("cast:") and nb.startswith("cast:"):
            return True if free(a) and free(b) else None
        if "not" in (na, nb):
            x, y = (a, b) if na == "not" else (b, a)
            if x.a[1][0] is y:
                return True
        if na in ATOMS and nb in ATOMS and atom(a) and atom(b):
            return True
        if "cast:" in na + nb or {na, nb} <= {"dec", "fdisp", "chr"}:
            return True if free(a) and free(b) else None
        return None
    if a.k == "comp" and b.k == "comp":
        n = differ(E, facts, a.a[3], b.a[3], d + 1)
        i = differ(E, facts, a.a[1], b.a[1], d + 1)
        if n and inhabited(a) and a.a[1] is b.a[1] and len(a.a[2]) == 1:
            return True
        if i and a.a[3] is b.a[3]:
            return True
        return None
    for x, y in ((a, b), (b, a)):
        # moved to the end against changed in its place
        if x.k == "snoc" and x.a[0].k == "app" and x.a[0].a[0] in ("swap_remove", "remove") and y.k == "with" and y.a[0] is x.a[0].a[1][0]:
            return True
        if x.k == "app" and x.a[0] in ("swap_remove", "remove") and y.k == "app" and y.a[0] in ("swap_remove", "remove") and x.a[0] != y.a[0] \
                and x.a[1] == y.a[1]:
            return True
    for x, y in ((a, b), (b, a)):
        if x.k == "comp" and path(y) and inhabited(x):
            return True
        if x.k == "snoc" or y.k == "snoc":
            m = SubI(Len(x), Len(y))
            if m.k == "int" and m.a[0]:
                return True
        if free(x) and free(y) and {x.k, y.k} <= {"fld", "discr", "len", "idx", "app", "sym"}:
            rx, ry = under(x), under(y)
            if rx is ry and x.k == y.k:
                return True
            if path(x) or path(y):
                return True
    return None


def under(t):
    while t.k in ("fld", "discr", "len", "idx"):
        t = t.a[0]
    return t


def inhabited(c):
    """there can be items"""
    L, init, alts, n = c.a
    if not (n.k == "int" and n.a[0] > 0 or path(n) or free(n)):
        return False
    return any(len(i) > 0 for _, i in alts)


def catdiff(E, facts, a, b, d):
    pa, pb = parts(a), parts(b)
    while pa and pb and pa[0] is pb[0]:
        pa, pb = pa[1:], pb[1:]
    while pa and pb and pa[-1] is pb[-1]:
        pa, pb = pa[:-1], pb[:-1]
    if not pa and not pb:
        return None
    for x, y in ((pa, pb), (pb, pa)):
        if not x:
            return True if any(p.k == "str" or free(p) or p.k == "comp" and inhabited(p) for p in y) else None
    if len(pa) == 1 and len(pb) == 1:
        return differ(E, facts, pa[0], pb[0], d + 1)
    s, t = pa[0], pb[0]
    if s.k == "str" and t.k == "str":
        u, v = s.a[0], t.a[0]
        if not u.startswith(v) and not v.startswith(u):
            return True
    s, t = pa[-1], pb[-1]
    if s.k == "str" and t.k == "str":
        u, v = s.a[0], t.a[0]
        if not u.endswith(v) and not v.endswith(u):
            return True
    if len(pa) == len(pb) and all((x.k == "str") == (y.k == "str") and (x is y or x.k != "str") for x, y in zip(pa, pb)):
        return True if any(differ(E, facts, x, y, d + 1) for x, y in zip(pa, pb)) else None
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and x[0].k in ("str",) or len(x) == 1 and free(x[0]):
            if any(p.k == "str" for p in y) and len(y) > 1:
                return True
    return None


def exotic(t, out):
    """the outermost parts of t that are results of functions which the analysis does not look into"""
    if t.k == "app" and t.a[0] in ("p:readable", "p:can_open"):
        return      # depends on nothing else
    if t.k == "app" and t.a[0] not in ATOMS and t.a[0] not in PATHAPPS and not t.a[0].startswith("cast:") and t.a[0] not in ("dec", "chr", "fdisp"):
        out.add(t)
        return
    for c in children(t):
        exotic(c, out)


def paths(t, out):
    if path(t):
        out.add(t)
        return
    for c in children(t):
        paths(c, out)


def related(facts, a, b):
    """conditions that may depend on each other in ways the analysis does not know: (t, u), or None"""
    exf, exv = set(), set()
    for t in facts:
        if t.k in ("at", "way"):
            continue
        if t.k == "len" and t.a[0].k == "app" and t.a[0].a[0] in ("block", "zlib", "broken block", "broken zlib"):
            # how many bytes a block takes says nothing about what is in it
            continue
        exotic(t, exf)
    exotic(a, exv)
    exotic(b, exv)
    allx = exf | exv
    ps = {}
    for e in allx:
        s = set()
        paths(e, s)
        ps[e] = s
    xs = sorted(allx, key=lambda t: t.id)
    for e in xs:
        for f in xs:
            if e.id < f.id and (e in exf or f in exf) and ps[e] & ps[f] and not nested(facts, e, f) and not nested(facts, f, e):
                return (e, f)
    return None


def nested(facts, e, f):
    """the facts only say which variant e is, and f is made from what is inside e"""
    for t in facts:
        if t.k not in ("at", "way") and t is not e and not (t.k == "discr" and t.a[0] is e) and any(x is e for x in subterms(t)):
            return False
    return e not in facts and outside(f, e)


def outside(t, e):
    if t is e:
        return False
    if t.k == "fld" and t.a[0] is e:
        return True
    return all(outside(c, e) for c in children(t))
