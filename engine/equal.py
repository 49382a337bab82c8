"""Deciding whether two analysed values are the same: True (proved), False (they differ: both sides are
fully known and are different), None (not known)."""
from term import *
import ai, differ

OPAQUE_OK = set()


def outer_phi(t):
    """the outermost merge point in t"""
    todo = [t]
    while todo:
        nxt = []
        for x in todo:
            if x.k == "phi":
                return x.a[0]
            if x.mids:
                nxt.extend(children(x))
        todo = nxt
    return None


CONSTS = ("int", "bool", "str", "float", "sym", "at", "label")


def atoms(ts):
    out = set()
    for t in ts:
        if t.k == "sym" or t.k == "at":
            out.add(t)
        out.update(x for x in subterms(t) if x.k not in CONSTS)
    return out


def edge_atoms(E, e):
    """the values which the facts of a way into a merge point are about"""
    memo = E.__dict__.setdefault("edge_atoms_memo", {})
    r = memo.get(id(e))
    if r is None:
        if isinstance(e, ai.By):
            s = set().union(*(edge_atoms(E, x) for x in e.alts.values()))
            s.add(T("at", e.mid))
        else:
            s = atoms(e) if e else set()
        r = memo[id(e)] = (s, e)
    return r[0]


class Cmp:
    def __init__(self, E, st, known=None):
        self.E = E
        self.st = st
        self.why = None
        self.budget = 4000
        self.taken = frozenset()
        self.known = known or (lambda name: False)

    def unresolved(self, t):
        for x in subterms(t):
            if x.k in ("mu", "top", "ref"):
                return x
            if x.k == "app":
                n = x.a[0]
                if self.E.is_unmodelled(n):
                    return x
            if x.k == "sym" and x.a[0].startswith(("opaque:", "any?")):
                return x
        return None

    def simp(self, facts, t):
        """t with the equalities of facts put in"""
        eqs = {}
        lens = {}
        chars = {}
        for k, f in facts.items():
            if f[0] != "=":
                continue
            if k.k == "app" and k.a[0] == "eq" and f[1] is TRUE and not is_const(k.a[1][1]):
                a, b = k.a[1]
                while a in eqs:
                    a = eqs[a]
                while b in eqs:
                    b = eqs[b]
                if a.id < b.id:
                    a, b = b, a
                if a is not b and not is_const(a):
                    eqs[a] = b
                continue
            if is_const(f[1]) and not is_const(k):
                eqs[k] = f[1]
                if k.k == "len" and f[1].k == "int" and f[1].a[0] == 0 and not is_empty(k.a[0]) and k.a[0].k in ("sym", "fld", "idx"):
                    eqs[k.a[0]] = Str("")
            if k.k == "discr" and f[1].k == "int" and k.a[0].k != "phi":
                x = k.a[0]
                if self.E.fieldless(x, f[1].a[0]):
                    pass
        if not eqs:
            return t

        def g(x):
            r = eqs.get(x)
            return r
        memo = {}
        n = [0]

        def go(x):
            r = memo.get(x)
            if r is None:
                y = eqs.get(x)
                if y is not None and y is not x:
                    while y in eqs and eqs[y] is not y and n[0] < 100:
                        y = eqs[y]
                        n[0] += 1
                    n[0] = 0
                    r = y
                else:
                    r = rebuild(x, go) if x.k not in ("int", "bool", "str", "sym", "float") else x
                memo[x] = r
            return r
        return go(t)

    def eq(self, facts, a, b, ef=None):
        ef = self.st.ef if ef is None else ef
        self.curef = ef
        return self.run(facts, a, b, ef)

    def run(self, facts, a, b, ef):
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0:
            self.why = "too many cases"
            return None
        a, b = self.simp(facts, a), self.simp(facts, b)
        if a is b:
            return True
        if a.k == "bot" or b.k == "bot" or is_empty(a) and is_empty(b):
            return True
        mids = a.mids | b.mids
        if mids:
            # split on the outermost merge point: one which is not inside the facts of another
            mid = self.pick(mids, a, b)
            labels = set()
            for t in (a, b):
                for x in subterms(t):
                    if x.k == "phi" and x.a[0] == mid:
                        labels.update(l for l, _ in x.a[1])
            res = True
            for l in sorted(labels, key=repr):
                f = self.take(facts, mid, l, ef)
                if f is None:
                    continue
                r = self.run(f, restrict(a, mid, {l}), restrict(b, mid, {l}), ef)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        return self.flat(facts, a, b, ef)

    def pick(self, mids, a, b):
        for t in (a, b):
            if t.k == "phi":
                return t.a[0]
        return sorted(mids, key=repr)[0]

    def all(self, facts, pairs, ef):
        res = True
        for x, y in pairs:
            r = self.run(facts, x, y, ef)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def flat(self, facts, a, b, ef):
        if is_const(a) and is_const(b):
            return self.no(facts, a, b)
        if a.k == "dyn":
            a = a.a[2]
        if b.k == "dyn":
            b = b.a[2]
        if a.k == "agg" and b.k == "agg":
            if a.a[0] == b.a[0] or "?" in (a.a[0], b.a[0]):
                if a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
                    return self.no(facts, a, b)
                return self.all(facts, list(zip(a.a[2], b.a[2])), ef)
        if b.k == "agg" and a.k != "agg":
            a, b = b, a
        if a.k == "agg" and a.a[0] != "array" and b.k in ("sym", "fld", "idx", "app", "with"):
            # eta: b is built like a
            d = ai.value(facts, Discr(b))
            n = self.E.variants(a.a[0])
            if n == 1 or (d is not None and d.k == "int" and d.a[0] == self.E.discr_of(a.a[0], a.a[1])):
                return self.all(facts, [(x, Fld(b, a.a[1], i)) for i, x in enumerate(a.a[2])], ef)
            if d is not None and d.k == "int":
                return self.no(facts, a, b)
            # b could be another variant
            return self.no(facts, a, b)
        if a.k == "comp" and b.k == "comp":
            r = self.run(facts, a.a[1], b.a[1], ef)
            r2 = self.run(facts, a.a[3], b.a[3], ef)
            if r is True and r2 is True:
                r3 = self.alts(facts, a, b, ef)
                return r3
            if r is False or r2 is False:
                return self.no(facts, a, b)
            return None
        for x, y in ((a, b), (b, a)):
            if x.k == "comp" and y.k != "comp" and self.zero(facts, x.a[3]):
                return self.run(facts, x.a[1], y, ef)
        if a.k == "app" and b.k == "app" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[0] not in ("not", "eq", "and", "lt"):
            r = self.all(facts, list(zip(a.a[1], b.a[1])), ef)
            if r is True:
                return True
        return self.no(facts, a, b)

    def zero(self, facts, n):
        """n is 0"""
        v = ai.value(facts, Eq(n, Int(0)))
        if v is TRUE:
            return True
        if n.k == "len" and n.a[0].k == "app" and n.a[0].a[0] == "chars":
            s = n.a[0].a[1][0]
            return ai.value(facts, Eq(Len(s), Int(0))) is TRUE or ai.value(facts, Eq(s, Str(""))) is TRUE
        return False

    def alts(self, facts, a, b, ef):
        res = True
        L = a.a[0]
        for ca, ia in self.closed(a.a[2]):
            for cb, ib in self.closed(b.a[2]):
                if b.a[0] != L:
                    v = T("bv", L)
                    cb2 = frozenset((subst_bv(x, b.a[0], v), y) for x, y in cb) if cb is not None else None
                    ib2 = tuple(subst_bv(x, b.a[0], v) for x in ib)
                else:
                    cb2, ib2 = cb, ib
                f = facts
                for c in (ca, cb2):
                    if c is None or f is None:
                        continue
                    f = ai.facts_meet(f, {x: y for x, y in c})
                if f is None:
                    continue
                if len(ia) != len(ib2):
                    if ca is None or cb2 is None:
                        return None     # the rest of the cases is not known
                    for t in [x for x, _ in ca | cb2] + [a.a[0], b.a[0]] + list(a.a[1:2]) + list(b.a[1:2]):
                        u = self.unresolved(t) if hasattr(t, "k") else None
                        if u is not None:
                            self.why = "%s" % (fmt(u)[:200],)
                            return None
                    r, g = self.feasible(f, ef, TRUE, FALSE)
                    if r is False and not all(differ.atom(x) for x, _ in ca | cb2):
                        self.why = "may add as many: %s  ~  %s" % (fmt(a)[:300], fmt(b)[:300])
                        r = None
                    if r is False:
                        self.why = "%s  /=  %s" % (fmt(a)[:300], fmt(b)[:300])
                        self.cex = g
                    if r is not True:
                        return r
                    continue
                r = self.all(f, list(zip(ia, ib2)), ef)
                if r is False:
                    if ca is None or cb2 is None:
                        return None
                    return False
                if r is None:
                    res = None
        return res

    def closed(self, alts):
        """the alternatives; None for a condition which is not fully known"""
        return [(None if any(x.k == "sym" and x.a[0] == "opaque:cond" for x, _ in c) else c, i) for c, i in alts]

    def no(self, facts, a, b):
        for t in (a, b):
            u = self.unresolved(t)
            if u is not None:
                self.why = "%s" % (fmt(u)[:200],)
                return None
        va, vb = ai.value(facts, a), ai.value(facts, b)
        if (va is not None and va is not a) or (vb is not None and vb is not b):
            return self.run(facts, va if va is not None else a, vb if vb is not None else b, self.curef)
        r, f = self.feasible(facts, self.curef, a, b)
        if r is False:
            r = self.other_merges(facts, f, a, b)
            if r is False and not self.sure(f, a, b):
                r = None
            if r is False:
                self.why = "%s  /=  %s" % (fmt(a)[:300], fmt(b)[:300])
                self.cex = f
        elif r is None and self.why is None:
            self.why = "too many cases"
        return r

    def sure(self, facts, a, b):
        """they are certainly different"""
        for x, y in ((a, b), (b, a)):
            if y.k == "comp" and x.k != "str" and self.E.P.text_key(x) in self.E.__dict__.get("scanned", ()) and any(z.k == "app" and z.a[0] == "chars" and z.a[1][0] is x for z in subterms(y)):
                # the characters of x were looked at before it is taken as it is
                self.why = "may be the same: %s  ~  %s" % (fmt(a)[:300], fmt(b)[:300])
                return False
        if differ.differ(self.E, facts, a, b) is not True:
            self.why = "may be the same: %s  ~  %s" % (fmt(a)[:300], fmt(b)[:300])
            return False
        r = differ.related(facts, a, b)
        if r is not None:
            self.why = "%s and %s may depend on each other" % (fmt(r[0])[:200], fmt(r[1])[:200])
            return False
        return True

    def other_merges(self, facts, f, a, b):
        """the value does not show which way an earlier merge was reached, but the facts of every way may settle it"""
        rel = set()
        for t in [a, b] + list(f):
            rel.update(x for x in subterms(t) if x.k not in ("int", "bool", "str", "float", "sym"))
        dep = set()         # the facts of the ways chosen depend on the way to these
        for k, x in facts.items():
            if k.k == "way":
                ai.by_mids(self.curef.get(k.a[0], {}).get(x[1].a[0]), dep)
        dep -= {k.a[0] for k in facts if k.k == "way"}
        # those whose ways say something about a and b first
        near, dist, left = atoms((a, b)), {}, {}
        for mid in self.curef:
            d = self.curef[mid]
            if mid not in self.taken and len(d) >= 2:
                left[mid] = {T("at", mid)}.union(*(edge_atoms(self.E, e) for e in d.values()))
        k = 0
        while left and k < 4:
            hit = [m for m in left if not near.isdisjoint(left[m])]
            for m in hit:
                dist[m] = k
            for m in hit:
                near |= left.pop(m)
            k += 1
        for mid in sorted(self.curef, key=lambda m: (dist.get(m, 9), m in dep, repr(m))):
            d = self.curef[mid]
            if mid in self.taken or len(d) < 2:
                continue
            need = mid in dep
            if not need:
                d = {l: ai.settled(e, lambda m: self.way(facts, m)) for l, e in d.items()}
                d = {l: e for l, e in d.items() if e != ai.IMPOSSIBLE}
            if ai.NP in d and T("at", mid) in facts:
                d = {l: e for l, e in d.items() if l != ai.NP}
            if not need and not all(d.values()):
                continue
            if any(mid in t.mids for t in f):
                continue
            if not need and not all(any(x in rel for t in e for x in subterms(t) if x.k not in ("int", "bool", "str", "float", "sym")) for e in d.values()):
                continue
            self.taken = self.taken | {mid}
            res = True
            for l in sorted(d, key=repr):
                f2 = self.take(facts, mid, l, self.curef)
                if f2 is None:
                    continue
                r = self.run(f2, a, b, self.curef)
                if r is False:
                    res = False
                    break
                if r is None:
                    res = None
            self.taken = self.taken - {mid}
            if res is True:
                return True
        return False

    def feasible(self, facts, ef, a, b, d=0):
        """-> (True, _): a and b are the same wherever the facts can hold; (False, facts): they differ under
        these facts without merged values; (None, _): not decided"""
        self.budget -= 1
        if self.budget < 0 or d > 40:
            return None, None
        mid = None
        for t in facts:
            if t.mids:
                mid = outer_phi(t)
                if mid is not None:
                    break
        if mid is None:
            a2, b2 = self.simp(facts, a), self.simp(facts, b)
            va, vb = ai.value(facts, a2), ai.value(facts, b2)
            a2, b2 = va if va is not None else a2, vb if vb is not None else b2
            if a2 is b2:
                return True, None
            if a2 is not a or b2 is not b:
                return self.run(facts, a2, b2, ef), facts
            return False, facts
        labels = set()
        for t in facts:
            if mid in t.mids:
                for x in subterms(t):
                    if x.k == "phi" and x.a[0] == mid:
                        labels.update(l for l, _ in x.a[1])
        res = True
        for l in sorted(labels, key=repr):
            f = self.take(facts, mid, l, ef)
            if f is None:
                continue
            r, cf = self.feasible(f, ef, a, b, d + 1)
            if r is False:
                return False, cf
            if r is None:
                res = None
        return res, None

    def take(self, facts, mid, l, ef):
        """the facts when the merge point mid was reached by the way l"""
        key = T("way", mid)
        lab = T("label", l)
        c = facts.get(key)
        if c is not None and c[1] is not lab:
            return None
        f = ai.restrict_facts(facts, mid, {l})
        if f is None:
            return None
        e = ef.get(mid, {}).get(l)
        if e:
            e = ai.settled(e, lambda m: l if m == mid else self.way(facts, m))
            if e == ai.IMPOSSIBLE:
                return None
            e = self.settle(ai.restrict_facts(e, mid, {l}), facts)
            if e is None:
                return None
            f = ai.facts_meet(f, e)
            if f is None:
                return None
        if c is None:
            # ways chosen before, whose facts depend on this one
            for k, x in list(f.items()):
                if k.k != "way":
                    continue
                e = ef.get(k.a[0], {}).get(x[1].a[0])
                if isinstance(e, ai.By) and ai.mentions(e, mid):
                    e = ai.settled(e, lambda m: l if m == mid else self.way(facts, m))
                    if e == ai.IMPOSSIBLE:
                        return None
                    e = self.settle(ai.restrict_facts(e, mid, {l}), facts)
                    if e is None:
                        return None
                    f = ai.facts_meet(f, e)
                    if f is None:
                        return None
            f = dict(f)
            f[key] = ("=", lab)
        return f

    def way(self, facts, m):
        c = facts.get(T("way", m))
        return c[1].a[0] if c is not None else None

    def settle(self, e, facts):
        """e with the ways already chosen put in"""
        while e is not None:
            ms = set()
            for t in e:
                ms |= t.mids
            hit = None
            for m in ms:
                c = facts.get(T("way", m))
                if c is not None:
                    hit = (m, c[1].a[0])
                    break
            if hit is None:
                return e
            e = ai.restrict_facts(e, hit[0], {hit[1]})
        return None
