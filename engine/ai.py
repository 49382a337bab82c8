"""A forward value-flow analysis (abstract interpretation) over the monomorphised MIR written by the
driver. States are joined at every merge point (no path enumeration); joined values remember which
edge they came from, loops are solved to a fixpoint with widening."""
import json
import re
import sys
from term import *

sys.setrecursionlimit(20000)


class Unknown(Exception):
    pass


NP = ("not passed",)


class State:
    __slots__ = ("mem", "facts", "ef", "ghost")

    def __init__(self, mem=None, facts=None, ef=None, ghost=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ef = ef if ef is not None else {}
        self.ghost = ghost

    def copy(self):
        return State(dict(self.mem), self.facts, self.ef, self.ghost)

    def with_ghost(self, g):
        s = self.copy()
        s.ghost = g
        return s

    def set(self, root, v):
        self.mem[root] = v

    def same(self, o):
        return self.ghost == o.ghost and self.mem == o.mem and self.facts == o.facts


# ---------------------------------------------------------------------- facts
def value(facts, t):
    """a constant for t, if the facts decide it"""
    if is_const(t):
        return t
    f = facts.get(t)
    if f is not None and f[0] == "=":
        return f[1]
    if t.k == "app":
        n = t.a[0]
        if n == "not":
            v = value(facts, t.a[1][0])
            return Not(v) if v is not None else None
        if n == "eq":
            a, b = t.a[1]
            if is_const(b):
                f = facts.get(a)
                if f is not None:
                    if f[0] == "=":
                        return Bool(f[1] is b)
                    if (b in f[1]) == (f[0] == "!"):
                        return FALSE
            else:
                fa, fb = value(facts, a), value(facts, b)
                if fa is not None and fb is not None:
                    return Bool(fa is fb)
                if fa is not None:
                    f = facts.get(b)
                    if f is not None and f[0] == "!" and fa in f[1]:
                        return FALSE
                if fb is not None:
                    f = facts.get(a)
                    if f is not None and f[0] == "!" and fb in f[1]:
                        return FALSE
            return order(facts, a, b, "eq")
        if n == "and":
            a, b = value(facts, t.a[1][0]), value(facts, t.a[1][1])
            if a is FALSE or b is FALSE:
                return FALSE
            if a is TRUE and b is TRUE:
                return TRUE
            return None
        if n == "lt":
            a, b = t.a[1]
            va, vb = value(facts, a), value(facts, b)
            if (va is not None or vb is not None) and (va is not a or vb is not b):
                r = Lt(va if va is not None else a, vb if vb is not None else b)
                if r.k == "bool":
                    return r
            return order(facts, a, b, n)
        if n == "slt":
            return order(facts, t.a[1][0], t.a[1][1], n)
        if n in ("flt", "fle", "feq"):
            return float_value(facts, t)
        if n.startswith("cast:"):
            v = value(facts, t.a[1][0])
            return Cast(n[5:], v) if v is not None else None
    if t.k == "discr":
        # a term known to be a particular string has no variant
        return None
    return None


YES, NOT = ("=", TRUE), ("=", FALSE)


def order(facts, a, b, n):
    """what the facts about the other comparisons of a and b say"""
    for lt in ("lt", "slt"):
        if n not in ("eq", lt):
            continue
        x, y = facts.get(App(lt, a, b)), facts.get(App(lt, b, a))
        if x is None and y is None and n == "eq":
            continue
        if n == "eq":
            if x == YES or y == YES:
                return FALSE
            if x == NOT and y == NOT:
                return TRUE
            continue
        e = facts.get(Eq(a, b)) if not (is_const(a) and is_const(b)) else None
        if y == YES or e == YES:
            return FALSE
        if y == NOT and e == NOT:
            return TRUE
    return None


def float_cmp(t):
    """(x, relation, constant) of a comparison of x with a constant; relation is one of < <= > >= = nan"""
    n = t.a[0]
    a, b = t.a[1]
    if n == "feq":
        if a is b:
            return a, "num", None
        if b.k == "float":
            return a, "=", float(b.a[0])
        if a.k == "float":
            return b, "=", float(a.a[0])
        return None
    if b.k == "float" and a.k != "float":
        return a, "<" if n == "flt" else "<=", float(b.a[0])
    if a.k == "float" and b.k != "float":
        return b, ">" if n == "flt" else ">=", float(a.a[0])
    return None


NEGREL = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def float_range(facts, x):
    """-> (may be NaN, low, low included, high, high included)"""
    import math
    nan, lo, lc, hi, hc = True, -math.inf, True, math.inf, True
    ns = False
    whole = x.k == "app" and x.a[0] in ("p:round", "p:floor", "p:ceil", "p:trunc", "i2f")
    for t, f in facts.items():
        if t.k != "app" or t.a[0] not in ("flt", "fle", "feq") or f[0] != "=":
            continue
        r = float_cmp(t)
        if r is None or r[0] is not x:
            continue
        _, rel, c = r
        if f[1] is TRUE:
            nan = False
            if rel == "num":
                continue
        else:
            if rel == "num":
                ns = True
                continue
            if rel == "=":
                continue
            rel = NEGREL[rel]
        if rel == "=":
            lo, lc, hi, hc = c, True, c, True
            continue
        inc = rel in ("<=", ">=")
        if whole and abs(c) < 2 ** 52:
            if rel == ">":
                c, inc = math.floor(c) + 1.0, True
            elif rel == ">=":
                c = float(math.ceil(c))
            elif rel == "<":
                c, inc = math.ceil(c) - 1.0, True
            else:
                c = float(math.floor(c))
        if rel in ("<", "<="):
            if c < hi or (c == hi and not inc):
                hi, hc = c, inc
        elif c > lo or (c == lo and not inc):
            lo, lc = c, inc
    if ns:
        lo, hi = 1.0, 0.0
    return nan, lo, lc, hi, hc


def float_value(facts, t):
    r = float_cmp(t)
    if r is None:
        a, b = t.a[1]
        if a.k == "float" and b.k == "float":
            x, y = float(a.a[0]), float(b.a[0])
            return Bool(x < y if t.a[0] == "flt" else x <= y if t.a[0] == "fle" else x == y)
        return None
    x, rel, c = r
    nan, lo, lc, hi, hc = float_range(facts, x)
    some = lo < hi or (lo == hi and lc and hc)      # some number is possible
    if not some and not nan:
        return None
    if rel == "num":
        if not nan:
            return TRUE
        return FALSE if not some else None
    if not some:
        return FALSE
    whole = x.k == "app" and x.a[0] in ("p:round", "p:floor", "p:ceil", "p:trunc", "i2f")
    if rel == "<":
        t, f = hi < c or (hi == c and not hc), lo >= c
    elif rel == "<=":
        t, f = hi <= c, lo > c or (lo == c and not lc)
    elif rel == ">":
        t, f = lo > c or (lo == c and not lc), hi <= c
    elif rel == ">=":
        t, f = lo >= c, hi < c or (hi == c and not hc)
    else:
        t, f = lo == hi == c, c < lo or c > hi or (c == lo and not lc) or (c == hi and not hc)
    if f:
        return FALSE
    if t and not nan:
        return TRUE
    return None


def learn(facts, t, c, pos):
    """facts (copied) extended with t == c (or != c); None if that is a contradiction"""
    v = value(facts, t)
    if v is not None:
        return facts if (v is c) == pos else None
    if t.k == "app":
        n = t.a[0]
        if n == "not" and c.k == "bool":
            return learn(facts, t.a[1][0], Bool(not c.a[0]), pos)
        if n == "eq" and c.k == "bool":
            want = c.a[0] == pos
            a, b = t.a[1]
            if is_const(b):
                return learn(facts, a, b, want)
            vb = value(facts, b)
            if vb is not None:
                r = learn(facts, a, vb, want)
                if r is None:
                    return None
                facts = r
            else:
                va = value(facts, a)
                if va is not None:
                    r = learn(facts, b, va, want)
                    if r is None:
                        return None
                    facts = r
        if n == "and" and c.k == "bool" and c.a[0] == pos:
            r = learn(facts, t.a[1][0], TRUE, True)
            return learn(r, t.a[1][1], TRUE, True) if r is not None else None
    if c.k == "bool" and not pos:
        c = Bool(not c.a[0])
        pos = True
    f = facts.get(t)
    if pos and f is not None and (c in f[1]) == (f[0] == "!"):
        return None
    out = dict(facts)
    if pos:
        out[t] = ("=", c)
        if t.k in ("idx", "len"):
            return spelled(out, t.a[0])
    elif f is not None and f[0] == "in":
        r = one_of(f[1] - {c})
        if r is None:
            return None
        out[t] = r
    else:
        out[t] = ("!", (f[1] if f is not None else frozenset()) | {c})
    return out


def spelled(facts, x):
    """when every byte of x is known, x is known; None if that is a contradiction"""
    n = facts.get(T("len", x))
    if x.k == "agg" or n is None or n[0] != "=" or n[1].k != "int" or not 0 <= n[1].a[0] <= 64:
        return facts
    bs = []
    for i in range(n[1].a[0]):
        f = facts.get(T("idx", x, Int(i)))
        if f is None or f[0] != "=" or f[1].k != "int" or not 0 <= f[1].a[0] < 256:
            return facts
        bs.append(f[1].a[0])
    c = Str(bytes(bs).decode("utf-8", "surrogateescape"))
    f = facts.get(x)
    if f is not None and (f[1] is not c if f[0] == "=" else (c in f[1]) == (f[0] == "!")):
        return None
    return facts


def one_of(s):
    if not s:
        return None
    if len(s) == 1:
        return ("=", next(iter(s)))
    return ("in", s)


def fact_join(a, b):
    """what both facts say"""
    if a == b:
        return a
    if a[0] != "!" and b[0] != "!":
        s = (a[1] if a[0] == "in" else frozenset((a[1],))) | (b[1] if b[0] == "in" else frozenset((b[1],)))
        if len(s) > 8 or TRUE in s or FALSE in s:
            return None
        return ("in", s)
    if a[0] == "in":
        s = b[1] - a[1]
        return ("!", s) if s else None
    if b[0] == "in":
        return fact_join(b, a)
    if a[0] == "!" and b[0] == "!":
        s = a[1] & b[1]
        return ("!", s) if s else None
    if a[0] == "=" and b[0] == "!":
        s = frozenset(x for x in b[1] if x is not a[1])
        return ("!", s) if s else None
    if a[0] == "!" and b[0] == "=":
        return fact_join(b, a)
    return None


def facts_meet(facts, extra):
    """conjunction"""
    out = dict(facts)
    for t, f in extra.items():
        if is_const(t):
            if f[0] == "=" and f[1] is not t:
                return None
            if f[0] != "=" and (t in f[1]) == (f[0] == "!"):
                return None
            continue
        if f[0] == "=":
            r = learn(out, t, f[1], True)
            if r is None:
                return None
            out = r
        elif f[0] == "in":
            v = value(out, t)
            g = out.get(t)
            if v is not None:
                if v not in f[1]:
                    return None
                continue
            s = f[1]
            if g is not None:
                s = s - g[1] if g[0] == "!" else s & g[1]
            g = one_of(s)
            if g is None:
                return None
            if g[0] == "=":
                out = learn(out, t, g[1], True)
                if out is None:
                    return None
            else:
                out = dict(out)
                out[t] = g
        else:
            for c in f[1]:
                r = learn(out, t, c, False)
                if r is None:
                    return None
                out = r
    return out


def restrict_facts(facts, mid, keep):
    if not any(mid in t.mids for t in facts):
        return facts
    out = {}
    redo = {}
    for t, f in facts.items():
        if mid in t.mids:
            t2 = restrict(t, mid, keep)
            if t2.k == "bot":
                return None         # no such value on this edge: it did not lead here
            redo[t2] = f
        else:
            out[t] = f
    return facts_meet(out, redo)


IMPOSSIBLE = {TRUE: ("=", FALSE)}


class By:
    """facts of one way into a merge point, which differ with the way another merge point was reached"""
    __slots__ = ("mid", "alts")

    def __init__(self, mid, alts):
        self.mid, self.alts = mid, alts

    def __eq__(self, o):
        return self is o or isinstance(o, By) and self.mid == o.mid and self.alts == o.alts

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        return 1

    def __repr__(self):
        return "By(%r: %r)" % (self.mid, self.alts)


def join_facts(fs):
    fs = [f for f in fs if f is not None and f != IMPOSSIBLE]
    if not fs:
        return IMPOSSIBLE
    out = dict(fs[0])
    for f in fs[1:]:
        for t in list(out):
            j = fact_join(out[t], f[t]) if t in f else None
            if j is None:
                del out[t]
            else:
                out[t] = j
    return out


def plain(e):
    """what holds in any case"""
    if isinstance(e, By):
        return join_facts([plain(x) for x in e.alts.values()])
    return e


def settled(e, chosen):
    """e, given the ways already known to be chosen"""
    while isinstance(e, By):
        l = chosen(e.mid)
        if l is None:
            return join_facts([settled(x, chosen) for x in e.alts.values()])
        if l not in e.alts:
            return {}
        e = e.alts[l]
    return e


def by_restrict(e, mid, keep):
    if isinstance(e, By):
        alts = {}
        for l, x in e.alts.items():
            if e.mid == mid and l not in keep:
                continue
            r = by_restrict(x, mid, keep)
            alts[l] = IMPOSSIBLE if r is None else r
        if all(not isinstance(x, By) and x == IMPOSSIBLE for x in alts.values()):
            return None
        if e.mid == mid and len(keep) == 1:
            return next(iter(alts.values()))
        return By(e.mid, alts)
    return restrict_facts(e, mid, keep)


def by_mids(e, out):
    if isinstance(e, By):
        out.add(e.mid)
        for x in e.alts.values():
            by_mids(x, out)


def mentions(e, mid):
    if isinstance(e, By):
        return e.mid == mid or any(mentions(x, mid) for x in e.alts.values())
    return any(mid in t.mids for t in e)


# ---------------------------------------------------------------------- engine
class Engine:
    def __init__(self, F, prims=None, hooks=None):
        self.F = F
        self.types = F["types"]
        self.inst = {i["id"]: i for i in F["instances"]}
        self.ctxs = {}
        self.ctxinfo = []
        self.log = []
        self.unmodelled = {}
        self.full = {}
        self.hooks = hooks
        import prims as P
        self.P = P
        self.cfgs = {}
        self.ncalls = 0
        self.visited = set()     # instances analysed
        self.maxdepth = 60
        self.assume = None       # f(term) -> const or None, consulted for branches
        self.steps = 0
        self.cut = False         # and what comes after these rounds is left out
        self.rounds = 0          # loops of at most so many rounds are taken round by round
        self.endless = set()
        self.unbounded = False   # this round asked for the next item of a sequence of unknown length
        self.partition = True
        self.warnings = []
        self.iter_next = {t: i for t, i in F.get("iter_next", [])}

    # ------------------------------------------------------------ what is known of types and names
    def sym_args(self, iid, st):
        """symbols for the arguments of a function"""
        body = self.inst[iid]["body"]
        out = []
        for i in range(1, body["argc"] + 1):
            ty, name = body["locals"][i]
            td = self.types[ty]
            s = Sym("arg:" + (name or str(i)))
            if td["k"] == "ref" and td.get("mut"):
                root = ("A", i, name)
                st.mem[root] = s
                out.append(Ref(root))
            elif td["k"] == "tuple" and not td["a"]:
                out.append(UNIT)
            else:
                out.append(s)
        return out

    def is_unmodelled(self, name):
        if name.startswith(("display:", "debug:", "fmt:")):
            # how an unknown type is shown (what Debug makes of text is known to differ from the text)
            return not name.lower().endswith(("str", "string"))
        return name in self.unmodelled or name.startswith("mut") and ":" in name

    def adt(self, tag):
        if not hasattr(self, "_adts"):
            self._adts = {}
            for t in self.types:
                if t.get("k") == "adt":
                    self._adts.setdefault(t["adt"], t)
        return self._adts.get(tag)

    def variants(self, tag):
        if tag == "tuple" or tag.startswith("closure"):
            return 1
        t = self.adt(tag)
        return len(t["v"]) if t else 0

    def discr_of(self, tag, variant):
        t = self.adt(tag)
        if t and t.get("enum"):
            return t["v"][variant][2]
        return variant

    def fieldless(self, t, d):
        return False

    # ------------------------------------------------------------ contexts
    def ctx(self, *key):
        i = self.ctxs.get(key)
        if i is None:
            i = len(self.ctxinfo)
            self.ctxs[key] = i
            self.ctxinfo.append(key)
        return i

    def where(self, ctx):
        """call stack of a context: list of (instance id, block of the call)"""
        out = []
        while ctx is not None:
            key = self.ctxinfo[ctx]
            if key[0] == "call":
                out.append((key[3], key[2]))
                ctx = key[1]
            elif key[0] == "root":
                out.append((key[1], None))
                ctx = None
            else:
                ctx = key[1]
        return out

    def stack(self, ctx):
        return [self.inst[i]["full"] for i, _ in self.where(ctx)]

    def record(self, kind, ctx, bb, st, **kw):
        self.log.append((kind, ctx, bb, st, kw))

    # ------------------------------------------------------------ cfg
    def cfg(self, iid):
        c = self.cfgs.get(iid)
        if c is not None:
            return c
        body = self.inst[iid]["body"]
        blocks = body["blocks"]
        succ = {}
        for b, bl in enumerate(blocks):
            if bl is None:
                continue
            t = bl[1]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[3]]
            else:
                s = []
            succ[b] = [x for x in s if blocks[x] is not None]
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    st.append((n, iter(succ[n])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        loops = {}
        for b in order:
            for s in succ[b]:
                if rpo[s] <= rpo[b]:
                    if not dom(s, b):
                        continue
                    body_ = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body_:
                            body_.add(x)
                            stk.extend(pred[x])
        c = (order, succ, loops, rpo)
        self.cfgs[iid] = c
        return c

    # ------------------------------------------------------------ memory
    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            return BOT
        for s in path:
            v = Fld(v, s[1], s[2]) if s[0] == "f" else Idx(v, s[1])
        return v

    def set_path(self, v, path, new):
        if not path:
            return new
        s = path[0]
        cur = Fld(v, s[1], s[2]) if s[0] == "f" else Idx(v, s[1])
        return With(v, s, self.set_path(cur, path[1:], new))

    def write(self, st, tgt, v):
        if tgt[0] == "mem":
            _, root, path = tgt
            if not path:
                st.mem[root] = v
            else:
                st.mem[root] = self.set_path(st.mem.get(root, TOP), path, v)
        elif tgt[0] == "multi":
            _, mid, alts = tgt
            for l, t in alts:
                old = self.rd(st, t)
                # only this label gets the new value
                labels = [x for x, _ in alts]
                self.write(st, t, Phi(mid, [(x, restrict(v, mid, {x}) if x == l else old) for x in labels]))

    def rd(self, st, tgt):
        if tgt[0] == "mem":
            return self.read(st, tgt[1], tgt[2])
        if tgt[0] == "val":
            return tgt[1]
        return Phi(tgt[1], [(l, self.rd(st, t)) for l, t in tgt[2]])

    def addr(self, st, tgt):
        if tgt[0] == "mem":
            return Ref(tgt[1], tgt[2])
        if tgt[0] == "val":
            return tgt[1]
        return Phi(tgt[1], [(l, self.addr(st, t)) for l, t in tgt[2]])

    def target_of(self, v):
        """the place a reference value points to"""
        if v.k == "ref":
            return ("mem", v.a[0], v.a[1])
        if v.k == "phi" and has_ref(v):
            return ("multi", v.a[0], [(l, self.target_of(x)) for l, x in v.a[1]])
        return ("val", v)

    def step(self, tgt, s):
        if tgt[0] == "mem":
            return ("mem", tgt[1], tgt[2] + (s,))
        if tgt[0] == "val":
            return ("val", Fld(tgt[1], s[1], s[2]) if s[0] == "f" else Idx(tgt[1], s[1]))
        return ("multi", tgt[1], [(l, self.step(t, s)) for l, t in tgt[2]])

    def content(self, st, v):
        """the value behind (any number of) references"""
        n = 0
        while n < 10:
            if v.k == "ref":
                v = self.read(st, v.a[0], v.a[1])
            elif v.k == "phi" and has_ref(v):
                v = lift(v, lambda x: self.content(st, x))
                return v
            else:
                return v
            n += 1
        return v

    def deep(self, st, v, d=0):
        """v with every reference replaced by what it refers to"""
        if not has_ref(v) or d > 8:
            return v
        return subst(v, has_ref, lambda x: self.deep(st, self.read(st, x.a[0], x.a[1]), d + 1) if x.k == "ref" else None)

    def own(self, st, fr, v, d=0):
        """v with references to this call's locals (values which stand for references) replaced by what they refer to"""
        if d > 8:
            return v
        def f(x):
            if x.k != "ref":
                return None
            r = x.a[0]
            if r[0] == "L" and r[1] == fr:
                return self.own(st, fr, self.read(st, x.a[0], x.a[1]), d + 1)
            return x
        return subst(v, has_ref, f)

    # ------------------------------------------------------------ places & operands
    def tydesc(self, t):
        return self.types[t]

    def place(self, st, fr, p):
        tgt = ("mem", ("L", fr, p[0]), ())
        variant = 0
        boxed = False
        ty = self.types[self.curbody["locals"][p[0]][0]]
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.rd(st, tgt)
                if boxed or is_box(ty):
                    # a box holds its content in place
                    if v.k in ("ref",) and boxed:
                        tgt = self.target_of(v)
                    boxed = False
                else:
                    tgt = self.target_of(v)
                variant = 0
                ty = self.types[ty["e"]] if ty.get("e") is not None else {}
            elif k == "f":
                adt = e[2] or ""
                if adt in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    boxed = True
                    continue
                tgt = self.step(tgt, ("f", variant, e[1]))
                variant = 0
                ty = {}
            elif k == "d":
                variant = e[1]
            elif k == "i":
                i = self.rd(st, ("mem", ("L", fr, e[1]), ()))
                tgt = self.step(tgt, ("i", strip_cast(i)))
                ty = {}
            elif k == "ci":
                off, fe = e[1], e[3] if len(e) > 3 else False
                if fe:
                    base = self.rd(st, tgt)
                    tgt = self.step(tgt, ("i", Add(Len(self.content(st, base)), Int(-off))))
                else:
                    tgt = self.step(tgt, ("i", Int(off)))
                ty = {}
            elif k == "ss":
                base = self.content(st, self.rd(st, tgt))
                frm, to, fe = e[1], e[2], e[3]
                v = Sub(base, Int(frm))
                if to and not (fe and to == 0):
                    v = App("subto", v, Int(to), Bool(fe))
                tgt = ("val", v)
                ty = {}
            else:
                tgt = self.step(tgt, ("f", 0, 0))
        return tgt, boxed

    def const(self, c, ty):
        if c is None:
            return TOP
        if "i" in c:
            td = self.types[ty] if ty is not None else {}
            if td.get("k") == "bool":
                return Bool(c["i"])
            return Int(c["i"])
        if "f" in c:
            return T("float", str(c["f"]))
        if "str" in c:
            return Str(c["str"])
        if "bytes" in c:
            b = bytes(c["bytes"])
            return Str(b.decode("utf-8", "surrogateescape"))
        if "ref" in c:
            td = self.types[ty] if ty is not None else {}
            return self.const(c["ref"], td.get("e"))
        if "arr" in c:
            td = self.types[ty] if ty is not None else {}
            el = [self.const(x, td.get("e")) for x in c["arr"]]
            return Agg("array", 0, el)
        if "var" in c:
            td = self.types[ty] if ty is not None else {}
            tag = tag_of(td)
            v = c["var"]
            fts = []
            try:
                if td.get("k") == "adt":
                    fts = [f[1] for f in td["v"][v][1]]
                elif td.get("k") == "tuple":
                    fts = td["a"]
            except (IndexError, KeyError, TypeError):
                pass
            fs = [self.const(x, fts[i] if i < len(fts) else None) for i, x in enumerate(c.get("fields", []))]
            if is_box(td) and len(fs) >= 1:
                return fs[0]
            return Agg(tag, v, fs)
        if "zst" in c:
            td = self.types[ty] if ty is not None else {}
            if td.get("k") == "fndef":
                return T("fn", ty)
            if td.get("k") == "closure":
                return Agg("closure:%d" % td["inst"], 0, ())
            return Agg(tag_of(td), 0, ())
        if "static" in c:
            if "init" in c:
                # a reference to an immutable static is the value of its initializer, like one to a constant
                td = self.types[ty] if ty is not None else {}
                return self.const(c["init"], td.get("e"))
            return Sym("static:" + str(c["static"]))
        if "const" in c:
            return Sym("const:" + c["const"])
        return Sym("opaque:" + json.dumps(c, sort_keys=True)[:100])

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(o[2], o[1])
        if o[0] == "rc":
            return FALSE
        tgt, boxed = self.place(st, fr, o[1])
        if boxed:
            return self.addr(st, tgt)
        return self.rd(st, tgt)

    def vmap(self, ty):
        td = self.types[ty]
        if td.get("k") == "adt" and td.get("enum"):
            return tuple(v[2] for v in td["v"])
        return None

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            tgt, boxed = self.place(st, fr, r[1])
            return self.addr(st, tgt)
        if k == "discr":
            tgt, _ = self.place(st, fr, r[1])
            return Discr(self.content(st, self.rd(st, tgt)), self.vmap(r[1][2]))
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[3]]
            td = self.types[r[4]]
            kind = r[1]
            if kind == "array":
                return Agg("array", 0, fs)
            if kind == "tuple":
                return Agg("tuple", 0, fs)
            if kind == "closure":
                return Agg("closure:%d" % td.get("inst", -1), 0, fs)
            if kind == "rawptr":
                return fs[0]
            if is_box(td):
                return fs[0]
            return Agg(tag_of(td), r[2], fs)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            if r[1] == "Cmp":
                return self.compare(st, a, b)
            return self.binop(r[1], a, b, self.types[r[4]])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.types[r[3]]["k"] == "bool":
                    return Not(a)
                return App("bitnot", a)
            if r[1] == "Neg":
                if self.types[r[3]]["k"] == "float":
                    return App("fneg", a)
                return Neg(a)
            if r[1] == "PtrMetadata":
                return Len(self.content(st, a))
            return App("un:" + r[1], a)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 16:
                return Agg("array", 0, [v] * r[2])
            return App("repeat", v, Int(r[2] if r[2] is not None else -1))
        return Sym("opaque:" + str(r)[:60])

    def compare(self, st, a, b):
        """an Ordering, merged from the three cases"""
        mid = ("cmp", fmt(a), fmt(b))
        alts, ef = [], {}
        for l, c, v in (("l", Lt(a, b), 0), ("e", Eq(a, b), 1), ("m", Lt(b, a), 2)):
            f = learn(st.facts, c, TRUE, True)
            if f is not None:
                alts.append((l, Agg("core::cmp::Ordering", v, ())))
                ef[l] = {k: x for k, x in f.items() if st.facts.get(k) != x}
        if len(alts) == 1:
            return alts[0][1]
        st.ef = dict(st.ef)
        st.ef[mid] = ef
        return Phi(mid, alts)

    def binop(self, op, a, b, td):
        isf = td["k"] == "float"
        if op.endswith("WithOverflow"):
            return Agg("tuple", 0, (self.binop(op[:-12], a, b, td), FALSE))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if isf:
            if a.k == "float" and b.k == "float":
                x, y = float(a.a[0]), float(b.a[0])
                try:
                    if op == "Add": return Float(x + y)
                    if op == "Sub": return Float(x - y)
                    if op == "Mul": return Float(x * y)
                    if op == "Div": return Float(x / y)
                except ZeroDivisionError:
                    pass
            if op == "Lt": return App("flt", a, b)
            if op == "Gt": return App("flt", b, a)
            if op == "Le": return App("fle", a, b)
            if op == "Ge": return App("fle", b, a)
            if op == "Eq": return App("feq", *sorted((a, b), key=lambda x: x.id))
            if op == "Ne": return Not(App("feq", *sorted((a, b), key=lambda x: x.id)))
            if op in ("Add", "Mul"):
                a, b = sorted((a, b), key=lambda x: x.id)
            return App("f" + op.lower(), a, b)
        if op == "Add": return Add(a, b)
        if op == "Sub": return SubI(a, b)
        if op == "Mul": return Mul(a, b)
        if op == "Eq": return Eq(a, b)
        if op == "Ne": return Not(Eq(a, b))
        if op == "Lt": return Lt(a, b)
        if op == "Gt": return Lt(b, a)
        if op == "Le": return Le(a, b)
        if op == "Ge": return Le(b, a)
        if op == "BitAnd" and td["k"] == "bool": return And(a, b)
        if op == "BitOr" and td["k"] == "bool": return Or(a, b)
        if op == "BitXor" and td["k"] == "bool": return Not(Eq(a, b))
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            if op == "Div" and y: return Int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            if op == "Rem" and y: return Int(x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)))
            if op == "BitAnd": return Int(x & y)
            if op == "BitOr": return Int(x | y)
            if op == "Shl": return Int(x << y)
            if op == "Shr": return Int(x >> y)
        if op == "Cmp":
            return App("cmp", a, b)
        if op == "Offset":
            return App("offset", a, b)
        if a.k == "phi" and not b.mids:
            return lift(a, lambda x: self.binop(op, x, b, td))
        return App(op.lower(), a, b)

    def cast(self, st, fr, r):
        kind, o, tt, stt = r[1], r[2], self.types[r[3]], self.types[r[4]]
        v = self.operand(st, fr, o)
        if kind.startswith("IntToInt"):
            if stt["k"] in ("bool", "char"):
                if v.k == "bool":
                    return Int(1 if v.a[0] else 0)
                if stt["k"] == "char":
                    return v
                return App("b2i", v)
            if tt["k"] == "char":
                return v
            if stt["k"] == "adt":
                return Discr(v)
            sb, tb = stt.get("bits", 64), tt.get("bits", 64)
            if stt["k"] == "int" and tt["k"] == "uint" or stt["k"] == "uint" and tt["k"] == "int":
                lossless = stt["k"] == "uint" and tb > sb
                if lossless:
                    return v
                if tb >= sb and tb == 64:
                    return v if tb == sb or v.k == "len" else Cast("u64" if tt["k"] == "uint" else "i64", v)
                return Cast(("u" if tt["k"] == "uint" else "i") + str(tb), v)
            if tb >= sb:
                return v
            return Cast(("u" if tt["k"] == "uint" else "i") + str(tb), v)
        if kind.startswith("IntToFloat"):
            if v.k == "int":
                return Float(v.a[0])
            return App("i2f", v)
        if kind.startswith("FloatToInt"):
            return App("f2i:%s%d" % (tt["k"][0], tt.get("bits", 64)), v)
        if kind.startswith("FloatToFloat"):
            if v.k == "float":
                return v
            return App("f2f:" + tt["s"], v)
        if kind == "Unsize" or kind.startswith("Unsize"):
            vt = r[5]
            if vt is None:
                return v
            si, ents = vt
            tab = tuple((n, i) for n, i, p in ents)
            return T("dyn", si, tab, v)
        if kind.startswith("ReifyFnPointer"):
            return T("fn", r[4])
        if kind.startswith("ClosureFnPointer"):
            return v
        return v

    # ------------------------------------------------------------ branching
    def restrict_state(self, st, mid, keep):
        keep = set(keep)
        mem = {}
        for r, v in st.mem.items():
            if mid in v.mids:
                v = restrict(v, mid, keep)
            mem[r] = v
        facts = restrict_facts(st.facts, mid, keep)
        if facts is None:
            return None
        ef = dict(st.ef)
        e = ef.pop(mid, None)
        extra = None
        if e:
            e2 = {l: f for l, f in e.items() if l in keep}
            if e2:
                extra = join_facts([plain(f) for f in e2.values()])
                if len(e2) > 1:
                    ef[mid] = e2
                else:
                    # settled, but where states meet again this one must count as one of the ways
                    ef[mid] = e2
        if mid not in ef and T("at", mid) in facts:
            facts = dict(facts)
            del facts[T("at", mid)]
        for m, d in list(ef.items()):
            if any(mentions(f, mid) for f in d.values()):
                nd = {}
                for l, f in d.items():
                    f2 = by_restrict(f, mid, keep)
                    nd[l] = f2 if f2 is not None else IMPOSSIBLE
                ef[m] = nd
        if extra:
            facts = facts_meet(facts, extra)
            if facts is None:
                return None
        return State(mem, facts, ef, st.ghost)

    def refine(self, st, t, test):
        """restrict the merged values in t to the edges for which test(value) may hold -> (st, t)"""
        guard = 0
        while t.mids and guard < 40:
            guard += 1
            done = True
            for mid in sorted(t.mids, key=repr):
                labels = set()
                for x in subterms(t):
                    if x.k == "phi" and x.a[0] == mid:
                        labels.update(l for l, _ in x.a[1])
                keep = set()
                for l in labels:
                    tl = restrict(t, mid, {l})
                    if tl.k == "bot":
                        continue
                    e = plain(st.ef.get(mid, {}).get(l))
                    facts = st.facts
                    if e:
                        if mid in tl.mids or not any(mid in x.mids for x in facts):
                            facts = facts_meet(facts, e)
                        else:
                            facts = restrict_facts(facts, mid, {l})
                            if facts is not None:
                                facts = facts_meet(facts, e)
                        if facts is None:
                            continue
                    v = self.decide(facts, tl)
                    if v is not None and not test(v):
                        continue
                    keep.add(l)
                if not keep:
                    return None, t
                if keep != labels:
                    st = self.restrict_state(st, mid, keep)
                    if st is None:
                        return None, t
                    t = restrict(t, mid, keep)
                    done = False
                    break
            if done:
                break
        return st, t

    def decide(self, facts, t):
        v = value(facts, t)
        if v is None and self.assume is not None:
            v = self.assume_value(t)
        return v

    def assume_value(self, t):
        if t.k == "app":
            if t.a[0] == "not":
                v = self.assume_value(t.a[1][0])
                return Not(v) if v is not None else None
            if t.a[0] == "eq":
                v = self.assume(t)
                if v is not None:
                    return v
                v = self.assume(t.a[1][0])
                if v is not None and is_const(t.a[1][1]):
                    return Eq(v, t.a[1][1])
                return None
        return self.assume(t)

    def assume_is(self, st, t, c, pos=True):
        """the state in which t == c (t != c)"""
        test = (lambda v: v is c) if pos else (lambda v: v is not c)
        st, t = self.refine(st, t, test)
        if st is None or t.k == "bot":
            return None
        v = self.decide(st.facts, t)
        if v is not None:
            return st if test(v) else None
        f = learn(st.facts, t, c, pos)
        if f is None:
            return None
        s = st.copy()
        s.facts = f
        return s

    def assume_not_in(self, st, t, cs):
        cs = set(cs)
        st, t = self.refine(st, t, lambda v: v not in cs)
        if st is None or t.k == "bot":
            return None
        v = self.decide(st.facts, t)
        if v is not None:
            return st if v not in cs else None
        f = st.facts
        for c in sorted(cs, key=lambda x: x.id):
            f = learn(f, t, c, False)
            if f is None:
                return None
        s = st.copy()
        s.facts = f
        return s

    def branch(self, st, t):
        """-> [(bool, state)] for a boolean term"""
        out = []
        for b in (TRUE, FALSE):
            s = self.assume_is(st, t, b)
            if s is not None:
                out.append((b.a[0], s))
        return out

    # ------------------------------------------------------------ merging
    def merge(self, mid, items):
        """items: [(label, state)] with the same ghost"""
        if len(items) == 1:
            return items[0][1]
        first = items[0][1]
        mem = {}
        for r in first.mem:
            vs = []
            for l, s in items:
                v = s.mem.get(r)
                if v is None:
                    break
                vs.append((l, v))
            else:
                mem[r] = self.merge_terms(mid, vs)
        common = dict(first.facts)
        for _, s in items[1:]:
            for t in list(common):
                f = s.facts.get(t)
                if f is None:
                    del common[t]
                else:
                    j = fact_join(common[t], f)
                    if j is None:
                        del common[t]
                    else:
                        common[t] = j
        ef = {}
        ms = {}
        for l, s in items:
            for m, d in s.ef.items():
                ms.setdefault(m, []).append((l, d))
        for m, ds in ms.items():
            d0 = ds[0][1]
            if all(d is d0 or d == d0 for _, d in ds):
                ef[m] = d0
                continue
            nd = {}
            for ml in dict.fromkeys(x for _, d in ds for x in d):
                es = [(l, d.get(ml, IMPOSSIBLE)) for l, d in ds]
                if all(e is es[0][1] or e == es[0][1] for _, e in es):
                    nd[ml] = es[0][1]
                else:
                    nd[ml] = By(mid, dict(es))
            ef[m] = d0 if nd == d0 else nd
        for m in ef:
            # not every way here went through m
            if NP not in ef[m] and not all(m in s.ef for _, s in items):
                ef[m] = dict(ef[m])
                ef[m][NP] = By(mid, {l: {} if m not in s.ef else IMPOSSIBLE for l, s in items})
        ef[mid] = {l: {t: f for t, f in s.facts.items() if common.get(t) != f} for l, s in items}
        if len([1 for x in ef[mid].values() if x]) > 1:
            common[T("at", mid)] = ("=", TRUE)      # came through here
        return State(mem, common, ef, first.ghost)

    def merge_terms(self, mid, vs):
        f = vs[0][1]
        if all(v is f for _, v in vs):
            return f
        vs = [(l, v) for l, v in vs if v is not BOT] or vs
        f = vs[0][1]
        if all(v.k == "agg" and v.a[0] == f.a[0] and v.a[1] == f.a[1] and len(v.a[2]) == len(f.a[2]) for _, v in vs) and f.k == "agg":
            return Agg(f.a[0], f.a[1], [self.merge_terms(mid, [(l, v.a[2][i]) for l, v in vs]) for i in range(len(f.a[2]))])
        if all(v.k == "dyn" and v.a[:2] == f.a[:2] for _, v in vs):
            return T("dyn", f.a[0], f.a[1], self.merge_terms(mid, [(l, v.a[2]) for l, v in vs]))
        if any(v.k == "with" for _, v in vs):
            bases = set()
            steps = []
            for _, v in vs:
                while v.k == "with" and v.a[1][0] == "f":
                    if v.a[1] not in steps:
                        steps.append(v.a[1])
                    v = v.a[0]
                bases.add(v)
            if len(bases) == 1 and len(set(s[1] for s in steps)) <= 1:
                b = bases.pop()
                r = b
                for s in sorted(steps, key=repr):
                    r = With(r, s, self.merge_terms(mid, [(l, Fld(v, s[1], s[2])) for l, v in vs]))
                return r
        return Phi(mid, vs)

    # ------------------------------------------------------------ running
    def run_root(self, iid, args, st, tag=None):
        c = self.ctx("root", iid, tag)
        return self.run_inst(iid, args, st, c)

    def run_inst(self, iid, args, st, ctx):
        """-> [(value, state)]"""
        ins = self.inst[iid]
        body = ins["body"]
        self.visited.add(iid)
        self.ncalls += 1
        fr = ctx
        argc = body["argc"]
        if body.get("spread") is not None and len(args) != argc:
            pass
        st = st.copy()
        if len(args) != argc or (argc == 2 and body.get("spread") is None and re.search(r"\{closure#\d+\}$", ins["raw"])):
            # closure bodies get their arguments as one tuple
            if len(args) == 2 and argc >= 1:
                n = argc - 1
                tup = args[1]
                args = [args[0]] + [Fld(tup, 0, i) for i in range(n)]
            elif len(args) == 1 and argc == 0:
                args = []
            else:
                raise Unknown("arity of %s: %d for %d" % (ins["full"], len(args), argc))
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        saved = getattr(self, "curbody", None)
        self.curbody = body
        try:
            order = self.cfg(iid)[0]
            exits, rets, _ = self.region(iid, ctx, fr, order, None, {0: [(("entry",), st)]})
        finally:
            self.curbody = saved
        out = []
        for s in rets:
            v = s.mem.get(("L", fr, 0), UNIT)
            s = s.copy()
            if has_ref(v):
                v = self.own(s, fr, v)
            s.mem = {r: x for r, x in s.mem.items() if not (r[0] == "L" and r[1] == fr)}
            out.append((v, s))
        return out

    def region(self, iid, ctx, fr, blocks, header, pend):
        """process blocks (in reverse post order); returns exits [(target, label, st)], return states,
        back edge states"""
        order, succ, loops, rpo = self.cfg(iid)
        inreg = set(blocks)
        pend = {b: list(v) for b, v in pend.items()}
        exits, rets, backs = [], [], []
        for b in blocks:
            items = pend.pop(b, None)
            if not items:
                continue
            if b in loops and b != header:
                ex, rr = self.loop(iid, ctx, fr, b, items)
                rets.extend(rr)
                for tgt, label, s in ex:
                    if tgt == header:
                        backs.append((label, s))
                    elif tgt in inreg:
                        pend.setdefault(tgt, []).append((label, s))
                    else:
                        exits.append((tgt, label, s))
                continue
            groups = {}
            for l, s in items:
                groups.setdefault(s.ghost, []).append((l, s))
            for g, its in groups.items():
                # drop duplicates
                st = self.merge((ctx, b, g), its)
                outs = self.block(iid, ctx, fr, b, st)
                for i, (tgt, s) in enumerate(outs):
                    label = (b, i, g)
                    if tgt == "ret":
                        rets.append(s)
                    elif tgt == header and header is not None:
                        backs.append((label, s))
                    elif tgt in inreg:
                        pend.setdefault(tgt, []).append((label, s))
                    else:
                        exits.append((tgt, label, s))
        return exits, rets, backs

    def block(self, iid, ctx, fr, b, st):
        """-> [(target or 'ret', state)]"""
        stmts, term = self.curbody["blocks"][b]
        st = st.copy()
        self.steps += 1
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2])
                if v is BOT:
                    v = TOP if False else v
                tgt, _ = self.place(st, fr, s[1])
                self.write(st, tgt, v)
            elif k == "sd":
                tgt, _ = self.place(st, fr, s[1])
                old = self.rd(st, tgt)
                self.write(st, tgt, Agg(old.a[0] if old.k == "agg" else "?", s[2], old.a[2] if old.k == "agg" else ()))
            elif k == "dead":
                st.mem.pop(("L", fr, s[1]), None)
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(st, fr, term)
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if term[4] in ("overflow",):
                return [(term[3], st)]
            if self.log is not None:
                self.P.bounds(self, ctx, b, st, term[5] if len(term) > 5 else None, c if term[2] else Not(c), {"bounds": "index out of bounds", "div0": "division by zero"}.get(term[4], "assertion"))
            s = self.assume_is(st, c, Bool(term[2]))
            return [(term[3], s)] if s is not None else []
        if k == "drop":
            return self.drop(ctx, fr, b, st, term)
        if k == "call":
            out = self.call(ctx, fr, b, st, term)
            if any(t == "retry" for t, _ in out):
                loops = self.cfg(iid)[2]
                res = []
                for t, s in out:
                    if t == "retry":
                        if b in loops:
                            t = b
                        else:
                            t = "ret"
                            s.mem[("L", fr, 0)] = RETRY
                    res.append((t, s))
                return res
            return out
        raise Unknown("terminator %s" % k)

    def switch(self, st, fr, term):
        t = self.operand(st, fr, term[1])
        ty = self.types[term[4]]
        mk = (lambda x: Bool(x)) if ty["k"] == "bool" else Int
        out = []
        t = self.content(st, t)
        vals = [mk(v) for v, _ in term[2]]
        for (v, tgt), c in zip(term[2], vals):
            s = self.assume_is(st, t, c)
            if s is not None:
                out.append((tgt, s))
        if ty["k"] == "bool" and len(vals) == 1:
            s = self.assume_is(st, t, Not(vals[0]))
        else:
            s = self.assume_not_in(st, t, vals)
        blk = self.curbody["blocks"][term[3]]
        if s is not None and blk is not None and not (blk[1][0] == "unreachable" and not blk[0]):
            out.append((term[3], s))
        return out

    def drop(self, ctx, fr, b, st, term):
        ty = self.types[term[1][2]]
        d = ty.get("drop")
        if d is None or "body" not in self.inst[d]:
            return [(term[2], st)]
        tgt, _ = self.place(st, fr, term[1])
        a = self.addr(st, tgt)
        c = self.ctx("call", ctx, b, d)
        saved = self.curbody
        res = self.run_inst(d, [a], st, c)
        self.curbody = saved
        return [(term[2], s) for _, s in res]

    # ------------------------------------------------------------ calls
    def call(self, ctx, fr, b, st, term):
        callee, argops, dest, target, span = term[1], term[2], term[3], term[4], term[5]
        args = [self.operand(st, fr, o) for o in argops]
        saved = self.curbody
        self.argtys = [o[1] if o[0] == "k" else (o[1][2] if o[0] in "cm" else None) for o in argops]
        self.retty = dest[2]
        res = self.do_call(callee, args, st, ctx, b, span, dest[2])
        self.curbody = saved
        out, again = [], []
        if target is None:
            self.record("panic", ctx, b, st, callee=callee.get("rpath") or callee.get("path") or "?", args=[self.deep(st, self.content(st, a)) for a in args][:1], span=span)
            return []
        for v, s in res:
            if v is BOT:
                continue
            s = s.copy()
            if v is RETRY:
                again.append(("retry", s))
                continue
            tgt, _ = self.place(s, fr, dest)
            self.write(s, tgt, v)
            out.append((target, s))
        if len(out) > 1:
            # one state per ghost: outcomes of one call are merged but remember where they came from
            groups = {}
            for i, (t, s) in enumerate(out):
                groups.setdefault(s.ghost, []).append(((b, "o", i), s))
            out = [(target, self.merge((ctx, b, "out", g), its)) for g, its in groups.items()]
        return out + again

    def do_call(self, callee, args, st, ctx, b, span, rty=None):
        """-> [(value, state)]"""
        if self.hooks is not None:
            r = self.hooks(self, callee, args, st, ctx, b, span)
            if r is not None:
                return r
        if "indirect" in callee:
            return self.opaque(callee, args, st, "indirect", ctx, b)
        p = self.P.lookup(callee)
        if p is not None:
            r = p(self, callee, args, st, ctx, b, span)
            if r is not None:
                return r
        if callee.get("virtual"):
            return self.virtual(callee, args, st, ctx, b, span)
        i = callee.get("inst")
        if i is not None and "body" in self.inst[i]:
            depth = 0
            for ii, _ in self.where(ctx):
                depth += 1
                if ii == i:
                    return self.opaque(callee, args, st, "recursive:" + self.inst[i]["path"], ctx, b)
            if depth < self.maxdepth:
                c = self.ctx("call", ctx, b, i)
                return self.run_inst(i, args, st, c)
        name = callee.get("rpath") or callee.get("path")
        # closures & function items called through the Fn traits
        if callee.get("trait", "").startswith("core::ops::function::Fn"):
            f = self.content(st, args[0])
            if f.k == "fn":
                c2 = self.types[f.a[0]]["callee"]
                tup = args[1]
                n = len(tup.a[2]) if tup.k == "agg" else 1
                return self.do_call(c2, [Fld(tup, 0, j) for j in range(n)], st, ctx, b, span)
            if f.k == "agg" and f.a[0].startswith("closure:"):
                ci = int(f.a[0].split(":")[1])
                if "body" in self.inst[ci]:
                    c = self.ctx("call", ctx, b, ci)
                    return self.run_inst(ci, [args[0], args[1]], st, c)
        return self.opaque(callee, args, st, name, ctx, b)

    def virtual(self, callee, args, st, ctx, b, span):
        r = args[0]
        tgt = self.target_of(r)
        v = self.rd(st, tgt)
        return self.virtual_on(callee, args, st, ctx, b, span, tgt, v)

    def virtual_on(self, callee, args, st, ctx, b, span, tgt, v):
        if v.k == "phi":
            out = []
            for l, _ in v.a[1]:
                s = self.restrict_state(st, v.a[0], {l})
                if s is None:
                    continue
                a2 = [restrict(a, v.a[0], {l}) for a in args]
                t2 = tgt
                if tgt[0] == "multi":
                    t2 = self.target_of(a2[0])
                out.extend(self.virtual_on(callee, a2, s, ctx, b, span, t2, self.rd(s, t2)))
            return out
        if v.k == "dyn":
            name = callee.get("name") or callee["path"].split("::")[-1]
            for n, i in v.a[1]:
                if n == name and i is not None and "body" in self.inst[i]:
                    inner = v.a[2]
                    if tgt[0] == "mem" and inner.k != "ref":
                        recv = Ref(tgt[1], tgt[2] + (("f", 0, "dyn"),))
                    else:
                        recv = inner
                    c = self.ctx("call", ctx, b, i)
                    return self.run_inst(i, [recv] + args[1:], st, c)
            # the primitive of that name for the concrete type
            name2 = callee.get("path")
            inner = v.a[2]
            recv = Ref(tgt[1], tgt[2] + (("f", 0, "dyn"),)) if tgt[0] == "mem" and inner.k != "ref" else inner
            p = self.P.by_path(name2)
            if p is not None:
                r = p(self, callee, [recv] + args[1:], st, ctx, b, span)
                if r is not None:
                    return r
        if v.k == "ref":
            t2 = self.target_of(v)
            return self.virtual_on(callee, args, st, ctx, b, span, t2, self.rd(st, t2))
        return self.opaque(callee, args, st, callee.get("path"), ctx, b)

    def opaque(self, callee, args, st, name, ctx, b):
        """an unknown function: its result is a function of what it can see; what it can change is
        changed to something unknown"""
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        vals = [self.deep(st, self.content(st, a)) for a in args]
        s = st.copy()
        r = App(name, *vals)
        for i, a in enumerate(args):
            if self.is_mut_arg(callee, i):
                tgt = self.target_of(a)
                if tgt[0] != "val":
                    self.write(s, tgt, App("mut%d:%s" % (i, name), *vals))
        return [(r, s)]

    def is_mut_arg(self, callee, i):
        sig = self.argtys
        if sig is not None and i < len(sig) and sig[i] is not None:
            t = self.types[sig[i]]
            return t.get("k") in ("ref", "ptr") and t.get("mut", True)
        return False

    # ------------------------------------------------------------ loops
    def loop(self, iid, ctx, fr, h, items):
        """-> exits [(target, label, st)], returns"""
        was = self.unbounded
        try:
            return self.loop_(iid, ctx, fr, h, items)
        finally:
            self.unbounded = was

    def loop_(self, iid, ctx, fr, h, items):
        order, succ, loops, rpo = self.cfg(iid)
        blocks = [b for b in order if b in loops[h]]
        if self.skips(iid, ctx):
            # next() of a filter: an item which is left out sends the caller to its next iteration
            ex, rr, backs = self.region(iid, self.ctx("loop", ctx, h, "once"), fr, blocks, h, {h: items})
            rr = list(rr)
            for l, x in backs:
                x = x.copy()
                x.mem[("L", fr, 0)] = RETRY
                rr.append(x)
            return ex, rr
        r = self.unroll(iid, ctx, fr, h, blocks, items)
        if r is not None:
            return r
        P = {}          # partition paths -> set of values seen
        noP = set()
        W = set()       # widened (root, path)
        items, forced = self.split_kinds(items)
        P.update(forced)
        mark = len(self.log)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Unknown("loop does not converge in %s" % self.inst[iid]["full"])
            try:
                heads = {}
                ins = {}
                for l, s in items:
                    ins.setdefault(self.key(s, P), []).append((l, s, True))
                it = 0
                while True:
                    it += 1
                    if it > 60:
                        raise Unknown("loop does not converge in %s" % self.inst[iid]["full"])
                    newheads = {}
                    for key in ins:
                        newheads[key] = self.widen(ctx, h, key, ins[key], W, P, noP, heads.get(key))
                    if len(newheads) > 24 and P:
                        for p in P:
                            noP.add(p)
                        raise Restart()
                    if set(newheads) == set(heads) and all(newheads[k].same(heads[k]) for k in heads):
                        break
                    heads = newheads
                    del self.log[mark:]
                    ins2 = {}
                    for l, s in items:
                        ins2.setdefault(self.key(s, P), []).append((l, s, True))
                    for key, s in heads.items():
                        c2 = self.ctx("loop", ctx, h, key)
                        _, _, backs = self.region(iid, c2, fr, blocks, h, {h: [(("head",), s)]})
                        for l, bs in backs:
                            ins2.setdefault(self.key(bs, P), []).append((("back", key, l), bs, False))
                    # keys once seen stay
                    ins = ins2
                break
            except Restart:
                continue
        # canonical form of the loop variables, then the final pass
        del self.log[mark:]
        exits, rets = [], []
        for key, s in heads.items():
            c2 = self.ctx("loop", ctx, h, key)
            L = (ctx, h, key)
            s2, sub, sel = self.canonical(iid, L, s, ins[key], W, key)
            m2 = len(self.log)
            ex, rr, backs = self.region(iid, c2, fr, blocks, h, {h: [(("head",), s2)]})
            ex = [(t, ("exit", h, key, l), x) for t, l, x in ex]
            rr = list(rr)
            every = [x for _, _, x in ex] + rr
            N = self.bounds(L, every)
            sigs = set(self.signature(L, x) for x in every if not self.exhausted(L, x)) if N is not None else ()
            for t, l, x in ex:
                exits.append((t, l, self.leave(L, x, N, sel, sigs)))
            for x in rr:
                rets.append(self.leave(L, x, N, sel, sigs))
        return exits, rets

    def unroll(self, iid, ctx, fr, h, blocks, items):
        """a loop whose number of rounds is known: the rounds one after the other"""
        if not self.rounds or (iid, h) in self.endless:
            return None
        mark = len(self.log)
        exits, rets = [], []
        for n in range(self.rounds):
            c2 = self.ctx("loop", ctx, h, ("round", n))
            self.unbounded = False
            ex, rr, backs = self.region(iid, c2, fr, blocks, h, {h: items})
            exits.extend((t, ("round", h, n, l), s) for t, l, s in ex)
            rets.extend(rr)
            if not backs:
                return exits, rets
            if self.unbounded and not self.cut:
                del self.log[mark:]
                return None
            items = [(("round", n, l), s) for l, s in backs]
        if self.cut:
            return exits, rets
        self.endless.add((iid, h))
        del self.log[mark:]
        return None

    def skips(self, iid, ctx):
        """the loop which looks for the next item of a filter, called from the head of a loop"""
        if not self.inst[iid]["path"].endswith(("models::find", "models::find_map")):
            return False
        w = self.where(ctx)
        if len(w) < 2 or not re.search(r"filter(_map)?::Filter(Map)?<.*Iterator>::next$", self.inst[w[1][0]]["path"]):
            return False
        key = self.ctxinfo[ctx]
        if key[0] != "call":
            return False
        parent, b = key[1], key[2]
        while True:
            pk = self.ctxinfo[parent]
            if pk[0] == "loop":
                return pk[2] == b and pk[3] != "once"
            if pk[0] != "call" or b != 0:
                return False
            parent, b = pk[1], pk[2]

    def split_kinds(self, items):
        """a merged iterator of several kinds: one partition of the loop for each kind"""
        out, P = [], {}
        todo = list(items)
        n = 0
        while todo:
            l, s = todo.pop(0)
            n += 1
            hit = None
            if n < 64:
                for r, v in s.mem.items():
                    if v.k != "phi":
                        continue
                    ls = leaves_of(v)
                    if any(x.k == "dyn" for x in ls) and all(x.k == "dyn" for x in ls) and len(set(x.a[:2] for x in ls)) > 1:
                        hit = (r, v)
                        break
            if hit is None:
                out.append((l, s))
                continue
            r, v = hit
            P[(r, ())] = True
            for lab, _ in v.a[1]:
                s2 = self.restrict_state(s, v.a[0], {lab})
                if s2 is not None:
                    todo.append(((l, "k", lab), s2))
        return out, P

    def key(self, st, P):
        k = []
        for p in sorted(P, key=repr):
            v = self.read(st, p[0], p[1]) if p[0] in st.mem else BOT
            if v.k == "dyn":
                k.append((p, ("dyn", v.a[0])))
            elif v.k == "agg":
                k.append((p, ("v", v.a[1])))
            elif is_const(v):
                k.append((p, v))
            else:
                k.append((p, None))
        return (st.ghost, tuple(k))

    def widen(self, ctx, h, key, ins, W, P, noP, old):
        ent = [(l, s) for l, s, e in ins if e]
        bks = [(l, s) for l, s, e in ins if not e]
        if not ent:
            ent, bks = bks[:1], bks[1:]
        e = self.merge((ctx, h, "entry", key), ent)
        if not bks and old is None:
            return e
        L = (ctx, h, key)
        mem = {}
        roots = [r for r in e.mem if all(r in s.mem for _, s in bks)]
        for r in roots:
            mem[r] = self.widen_term(L, r, (), e.mem[r], [s.mem[r] for _, s in bks], W, P, noP)
        facts = dict(e.facts)
        for _, s in bks:
            for t in list(facts):
                f = s.facts.get(t)
                j = fact_join(facts[t], f) if f is not None else None
                if j is None:
                    del facts[t]
                else:
                    facts[t] = j
        return State(mem, facts, e.ef, e.ghost)

    def widen_term(self, L, root, path, e, bs, W, P, noP):
        if (L, root, path) in W:
            return T("mu", L, root, path)
        if all(b is e for b in bs):
            return e
        allv = [e] + bs
        if all(v.k == "agg" and v.a[0] == e.a[0] and v.a[1] == e.a[1] and len(v.a[2]) == len(e.a[2]) for v in allv) and e.k == "agg" \
                and (e.a[0] != "array"):
            return Agg(e.a[0], e.a[1], [self.widen_term(L, root, path + (("f", e.a[1], i),), e.a[2][i], [b.a[2][i] for b in bs], W, P, noP)
                                        for i in range(len(e.a[2]))])
        if all(v.k == "dyn" and v.a[:2] == e.a[:2] for v in allv):
            return T("dyn", e.a[0], e.a[1], self.widen_term(L, root, path + (("f", 0, "dyn"),), e.a[2], [b.a[2] for b in bs], W, P, noP))
        if any(v.k == "with" for v in allv):
            bases, steps = set(), []
            for v in allv:
                while v.k == "with" and v.a[1][0] == "f":
                    if v.a[1] not in steps:
                        steps.append(v.a[1])
                    v = v.a[0]
                bases.add(v)
            if len(bases) == 1 and len(set(s[1] for s in steps)) <= 1:
                r = bases.pop()
                for s in sorted(steps, key=repr):
                    r = With(r, s, self.widen_term(L, root, path + (s,), Fld(e, s[1], s[2]), [Fld(b, s[1], s[2]) for b in bs], W, P, noP))
                return r
        p = (root, path)
        if self.partition and p not in noP and p not in P:
            leaves = []
            for v in allv:
                leaves.extend(leaves_of(v))
            if all(v.k == "bool" or (v.k == "agg" and v.a[0] not in ("array", "tuple", "sliceiter") and not v.a[0].startswith("closure")) for v in leaves):
                kinds = set((v.a[1] if v.k == "agg" else v) for v in leaves)
                if len(kinds) > 1 and len(kinds) <= 6 and len(P) < 6 and all(v.k != "phi" for v in allv):
                    P[p] = True
                    raise Restart()
        W.add((L,) + p)
        return T("mu", L, root, path)

    # -------- what the loop variables are
    def canonical(self, iid, L, s, ins, W, key):
        mus = set()
        for v in s.mem.values():
            if L in v.loops:
                mus.update(x for x in subterms(v) if x.k == "mu" and x.a[0] == L)
        ent = [(l, x) for l, x, e in ins if e]
        bks = [(l, x) for l, x, e in ins if not e]
        if not mus or not bks or any(l[1] != key for l, _ in bks) or not ent:
            return s, {}, {}
        ctx, h = L[0], L[1]
        e = self.merge((ctx, h, "entry", key), ent)
        bst = self.merge((ctx, h, "back", key), bks)
        info = {}
        for m in mus:
            _, root, path = m.a
            info[m] = (self.read(e, root, path), self.read(bst, root, path))
        sub = {}
        iv = T("iv", L)
        bv = T("bv", L)

        def ap(t):
            return subst(t, lambda x: L in x.loops, lambda x: sub.get(x) if x.k == "mu" else None)

        def has_mu(t):
            return any(x.k == "mu" and x.a[0] == L for x in subterms(t)) if L in t.loops else False

        def tobv(t):
            return subst_iv(t, L, bv)
        ch = True
        while ch:
            ch = False
            for m in sorted(mus, key=lambda x: x.id):
                if m in sub:
                    continue
                init, back = info[m]
                if back.k == "bot" or init.k == "bot":
                    continue
                back = ap(back)
                d = SubI(back, m) if back.k in ("poly", "mu", "psum", "int") or back is m else None
                if d is not None and d.k == "int":
                    sub[m] = Add(init, Mul(d, iv))
                    ch = True
                    continue
                if d is not None and not has_mu(d) and back.k == "poly" and any(mm == (m,) and c == 1 for mm, c in back.a[0]):
                    sub[m] = Add(init, Psum(L, tobv(d), iv))
                    ch = True
                    continue
                # value of the previous iteration
                if not has_mu(back) and L in back.loops and is_const(init):
                    prev = subst_iv(back, L, Add(iv, Int(-1)))
                    if subst_iv(prev, L, Int(0)) is init:
                        sub[m] = prev
                        ch = True
                        continue
                c = self.accum(bst, m, init, back, has_mu, tobv, L, iv, ap)
                if c is not None:
                    sub[m] = c
                    ch = True
                    continue
        # guarded assignments: the value at the exit
        sel = {}
        for m in mus:
            if m in sub:
                continue
            init, back = info[m]
            g = self.guarded(bst, m, init, ap(back), has_mu, tobv, L, ap)
            if g is not None:
                sel[m] = g
        mem = {r: ap(v) for r, v in s.mem.items()}
        return State(mem, s.facts, s.ef, s.ghost), sub, sel

    def flatten(self, st, t, cap=48):
        """-> [(facts, value)] for a merged value, one for each way the merges were reached"""
        todo, out = [({}, t, {})], []
        whole = True
        while todo:
            f, v, ch = todo.pop(0)
            m = None
            if v.k == "phi":
                m = v.a[0]
                labels = [l for l, _ in v.a[1]]
            else:
                for x in f:
                    if x.k == "at" and x.a[0] not in ch and x.a[0] in st.ef:
                        m = x.a[0]
                        labels = [l for l in st.ef[m] if l != NP]
                        break
                if m is not None and (len(todo) + len(out) > cap or m == t):
                    f = dict(f)
                    f[Sym("opaque:cond")] = ("=", TRUE)
                    m = None
            if m is None:
                out.append((f, v))
                continue
            for l in labels:
                ch2 = dict(ch)
                ch2[m] = l
                for e, ch3 in self.unfold(st, st.ef.get(m, {}).get(l, {}), ch2):
                    f2 = restrict_facts(f, m, {l})
                    v2 = v
                    for k, x in ch3.items():
                        if k not in ch:
                            v2 = restrict(v2, k, {x})
                            if f2 is not None:
                                f2 = restrict_facts(f2, k, {x})
                    if f2 is None or v2.k == "bot":
                        continue
                    f2 = facts_meet(f2, e)
                    if f2 is not None:
                        todo.append((f2, v2, ch3))
        return out

    def unfold(self, st, e, ch):
        """the facts of one way into a merge, for each way the merges before it were reached"""
        if isinstance(e, By):
            if e.mid in ch:
                return self.unfold(st, e.alts.get(ch[e.mid], {}), ch)
            out = []
            for l, x in e.alts.items():
                ch2 = dict(ch)
                ch2[e.mid] = l
                for y, ch3 in self.unfold(st, x, ch2):
                    g = st.ef.get(e.mid, {}).get(l)
                    if g is not None and not isinstance(g, By):
                        y = facts_meet(y, g)
                        if y is None:
                            continue
                    out.append((y, ch3))
            return out
        if e == IMPOSSIBLE:
            return []
        for m, l in ch.items():
            e = restrict_facts(e, m, {l})
            if e is None:
                return []
        return [(e, ch)]

    def items_of(self, t, m):
        """t = m ++ items -> items or None"""
        items = []
        while True:
            if t is m:
                items.reverse()
                return items
            if t.k == "snoc":
                items.append(t.a[1])
                t = t.a[0]
            elif t.k == "comp":
                items.append(T("spread", Comp(t.a[0], EMPTYSEQ, t.a[2], t.a[3])))
                t = t.a[1]
            elif t.k == "cat" and t.a[0][0].k in ("mu", "comp"):
                rest = list(t.a[0][1:])
                rest.reverse()
                items.extend(rest)
                t = t.a[0][0]
            else:
                return None

    def accum(self, bst, m, init, back, has_mu, tobv, L, iv, ap):
        alts = []
        some = False
        for f, v in self.flatten(bst, back):
            its = self.items_of(v, m)
            if its is None:
                return None
            if any(has_mu(x) for x in its):
                return None
            if its:
                some = True
            alts.append((f, its))
        alts = self.split_items(bst, alts, L)
        out = []
        for f, its in alts:
            cond = frozenset()
            if len(alts) > 1:
                cond = set()
                for k, x in f.items():
                    if k.k not in ("at", "way"):
                        k = ap(k)
                        cond.add((tobv(k), x) if not has_mu(k) else (Sym("opaque:cond"), ("=", TRUE)))
                cond = frozenset(cond)
            out.append((cond, tuple(tobv(x) for x in its)))
        if not some:
            return None
        # identical alternatives need no condition
        if len(set(i for _, i in out)) == 1:
            out = [(frozenset(), out[0][1])]
        else:
            out = sorted(set(out), key=lambda c: ([x.id for x in c[1]], sorted((k.id, repr(v)) for k, v in c[0])))
        return Comp(L, init, tuple(out), iv)

    def split_items(self, bst, alts, L, limit=48):
        """the items hold values merged inside the body, under conditions of the iteration: one alternative
        for each way"""
        todo, out = list(alts), []
        while todo:
            f, its = todo.pop()
            mids = set()
            for x in its:
                mids |= x.mids
            hit = None
            for mid in sorted(mids, key=repr):
                d = bst.ef.get(mid)
                if d and any(L in k.loops for e in d.values() for k in plain(e)):
                    hit = mid
                    break
            if hit is None or len(todo) + len(out) > limit:
                out.append((f, its))
                continue
            labels = set()
            for x in its:
                for y in subterms(x):
                    if y.k == "phi" and y.a[0] == hit:
                        labels.update(l for l, _ in y.a[1])
            for l in sorted(labels, key=repr, reverse=True):
                e = plain(bst.ef[hit].get(l, {}))
                if e == IMPOSSIBLE:
                    continue
                f2 = facts_meet(f, e)
                if f2 is None:
                    continue
                todo.append((f2, [restrict(x, hit, {l}) for x in its]))
        out.sort(key=lambda a: ([x.id for x in a[1]], sorted((k.id, repr(v)) for k, v in a[0].items())))
        return out

    def guarded(self, bst, m, init, back, has_mu, tobv, L, ap):
        alts = [({ap(k): x for k, x in f.items()}, v) for f, v in self.flatten(bst, back)]
        out = []
        for f, v in alts:
            if v is m:
                continue
            if has_mu(v):
                return None
            cond = key_facts(f, L)
            if not cond:
                return None
            out.append((cond, v))
        if not out:
            return None
        return (init, out)

    def bound_of(self, L, t):
        """t says that the loop goes on while the number of the iteration is less than the result"""
        if t.k == "app" and t.a[0] == "lt" and t.a[1][0] is T("iv", L) and L not in t.a[1][1].loops:
            return t.a[1][1]
        if t.k == "phi":
            out = []
            for l, x in t.a[1]:
                n = Int(0) if x is FALSE else self.bound_of(L, x)
                if n is None:
                    return None
                out.append((l, n))
            return Phi(t.a[0], out)
        return None

    def bound_facts(self, L, s):
        out = []
        for t, f in s.facts.items():
            if L in t.loops and f == ("=", FALSE):
                n = self.bound_of(L, t)
                if n is not None:
                    out.append(n)
        return out

    def bounds(self, L, sts):
        ns = set()
        for s in sts:
            ns.update(self.bound_facts(L, s))
        if not ns:
            return None
        if len(ns) == 1:
            return ns.pop()
        return App("min", *sorted(ns, key=lambda x: x.id))

    def exhausted(self, L, s):
        return bool(self.bound_facts(L, s))

    def signature(self, L, s):
        """what tells the iteration in which the loop is left early"""
        bv = T("bv", L)
        sig = frozenset((subst_iv(t, L, bv), c) for t, c in key_facts(s.facts, L))
        # everything known about that iteration, for valuate
        self.full.setdefault(First(L, sig), {}).setdefault(L, set()).add(
            frozenset((subst_iv(t, L, bv), f) for t, f in s.facts.items() if L in t.loops))
        return sig

    def leave(self, L, s, N, sel, sigs=()):
        """the state after the loop: its variables get their final values"""
        iv = T("iv", L)
        exhausted = self.exhausted(L, s)
        v = N if exhausted else First(L, self.signature(L, s))
        repl = {}
        newphi = []
        if exhausted:
            for m, (init, alts) in sel.items():
                mid = ("sel",) + L + (m.a[1], m.a[2])
                ls = [("none", init)]
                for i, (cond, x) in enumerate(alts):
                    bv = T("bv", L)
                    sig = frozenset((subst_iv(t, L, bv), c) for t, c in cond)
                    ls.append((("alt", i), subst_iv(x, L, First(L, sig))))
                repl[m] = Phi(mid, ls)

        def g(x):
            if x.k == "iv" and x.a[0] == L:
                return v
            if x.k == "mu" and x in repl:
                return repl[x]
            return None

        def go(t):
            return subst(t, lambda x: L in x.loops, g)
        mem = {r: go(x) if L in x.loops else x for r, x in s.mem.items()}
        facts = {}
        extra = {}
        for t, f in s.facts.items():
            if L in t.loops:
                t2 = go(t)
                if is_const(t2) or t2.k == "bot":
                    continue
                extra[t2] = f
            else:
                facts[t] = f
        for sig in sigs:
            # the iterations at which the loop would have been left in another way
            if exhausted and sig:
                c = Lt(First(L, sig), N)
                if not is_const(c):
                    extra[c] = ("=", FALSE)
            elif not exhausted and First(L, sig) is not v:
                c = Lt(First(L, sig), v)
                if not is_const(c):
                    extra[c] = ("=", FALSE)
        m = facts_meet(facts, extra)
        if m is None:
            m = facts
        ef = s.ef
        return State(mem, m, ef, s.ghost)


RETRY = T("sym", "retry")


class Restart(Exception):
    pass


def leaves_of(t):
    if t.k == "phi":
        out = []
        for _, x in t.a[1]:
            out.extend(leaves_of(x))
        return out
    return [t]


def key_facts(facts, L):
    """the equalities with constants about this iteration's element"""
    out = set()
    byt = {}
    lens = {}
    for t, f in facts.items():
        if L not in t.loops or f[0] != "=":
            continue
        if t.k == "app" and t.a[0] == "lt":
            continue
        if t.k == "phi" and all(x.k == "bool" or x.k == "app" and x.a[0] == "lt" and x.a[1][0] is T("iv", L) for x in leaves_of(t)):
            continue
        if t.k == "idx" and t.a[1].k == "int" and f[1].k == "int" and 0 <= f[1].a[0] < 256:
            byt.setdefault(t.a[0], {})[t.a[1].a[0]] = f[1].a[0]
            continue
        if t.k == "len" and f[1].k == "int":
            lens[t.a[0]] = f[1].a[0]
            continue
        if t.k == "discr":
            out.add((t, f[1]))
            continue
        out.add((t, f[1]))
    for x, d in byt.items():
        n = lens.get(x)
        if n is not None and all(i in d for i in range(n)):
            out.add((x, Str(bytes(d[i] for i in range(n)).decode("utf-8", "surrogateescape"))))
    return frozenset(out)


def tag_of(td):
    k = td.get("k")
    if k == "adt":
        return td["adt"]
    if k == "tuple":
        return "tuple"
    if k == "array":
        return "array"
    if k == "closure":
        return "closure:%d" % td.get("inst", -1)
    return td.get("s", "?")


def is_box(td):
    return td.get("k") == "adt" and td.get("adt") == "alloc::boxed::Box"


_hr = {}


def has_ref(t):
    r = _hr.get(t)
    if r is None:
        if t.k == "ref":
            r = True
        else:
            r = any(has_ref(c) for c in children(t))
        _hr[t] = r
    return r
