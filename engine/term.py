"""Hash-consed value terms with simplifying constructors."""

_tab = {}
_n = [0]
EMPTY = frozenset()
BINDERS = ("psum", "comp", "first")


class Term:
    __slots__ = ("k", "a", "id", "mids", "loops", "_d")

    def __repr__(self):
        return fmt(self)

    def __lt__(self, o):
        return self.id < o.id


def T(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.k = k
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        mids = EMPTY
        loops = EMPTY
        for x in children_raw(k, a):
            if x.mids:
                mids = mids | x.mids if mids else x.mids
            if x.loops:
                loops = loops | x.loops if loops else x.loops
        if k == "phi":
            mids = mids | {a[0]}
        elif k in ("mu", "iv", "bv"):
            loops = loops | {a[0]}
        elif k in BINDERS and a[0] in loops:
            outer = EMPTY
            if k == "psum":
                outer = a[2].loops
            elif k == "comp":
                outer = a[1].loops | a[3].loops
            if a[0] not in outer:
                loops = loops - {a[0]}
        t.mids = mids
        t.loops = loops
        t._d = None
        _tab[key] = t
    return t


def _walk(x, out):
    if isinstance(x, Term):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, out)
    elif isinstance(x, frozenset):
        for y in x:
            _walk(y, out)


def children_raw(k, a):
    out = []
    for x in a:
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            _walk(x, out)
    return out


def children(t):
    return children_raw(t.k, t.a)


# ------------------------------------------------------------------ basics
def Int(n):
    return T("int", int(n))


def Bool(b):
    return T("bool", bool(b))


def Str(s):
    return T("str", s)


def Float(x):
    return T("float", repr(float(x)))


def Sym(name):
    return T("sym", name)


def Ref(root, path=()):
    return T("ref", root, path)


def Agg(tag, variant, fields):
    return T("agg", tag, variant, tuple(fields))


def App(name, *args):
    return T("app", name, tuple(args))


UNIT = Agg("tuple", 0, ())
BOT = T("bot")
TOP = T("top")
TRUE = Bool(True)
FALSE = Bool(False)
CONSTK = ("int", "bool", "str", "float")


def is_const(t):
    return t.k in CONSTK


def Some(x):
    return Agg("core::option::Option", 1, (x,))


NONE = Agg("core::option::Option", 0, ())


def Ok(x):
    return Agg("core::result::Result", 0, (x,))


def Err(x):
    return Agg("core::result::Result", 1, (x,))


# ------------------------------------------------------------------ phi
def Phi(mid, alts):
    """alts: list of (label, term)"""
    alts = [(l, t) for l, t in alts if t is not BOT]
    if not alts:
        return BOT
    f = alts[0][1]
    if all(t is f for _, t in alts):
        return f
    return T("phi", mid, tuple(sorted(alts, key=lambda x: repr(x[0]))))


def lift(t, f):
    """apply f to every alternative of a phi"""
    return Phi(t.a[0], [(l, f(x)) for l, x in t.a[1]])


# ------------------------------------------------------------------ projections
def Fld(t, variant, idx):
    k = t.k
    if k == "dyn" and idx == "dyn":
        return t.a[2]
    if k == "agg":
        if t.a[1] != variant:
            return BOT
        if idx == "dyn":
            return t
        return t.a[2][idx] if idx < len(t.a[2]) else BOT
    if k == "phi":
        return lift(t, lambda x: Fld(x, variant, idx))
    if k == "with":
        base, step, v = t.a
        if step == ("f", variant, idx):
            return v
        if step[0] == "f":
            return Fld(base, variant, idx)
        return T("fld", t, variant, idx)
    if k == "bot":
        return BOT
    return T("fld", t, variant, idx)


def With(t, step, v):
    if step[0] == "f" and step[2] == "dyn":
        return T("dyn", t.a[0], t.a[1], v) if t.k == "dyn" else v
    if t.k == "agg" and step[0] == "f":
        if t.a[1] == step[1] and step[2] < len(t.a[2]):
            fs = list(t.a[2])
            fs[step[2]] = v
            return T("agg", t.a[0], t.a[1], tuple(fs))
    if t.k == "agg" and step[0] == "i" and step[1].k == "int" and t.a[0] == "array":
        i = step[1].a[0]
        if 0 <= i < len(t.a[2]):
            fs = list(t.a[2])
            fs[i] = v
            return T("agg", t.a[0], t.a[1], tuple(fs))
    if t.k == "with" and t.a[1] == step:
        t = t.a[0]
        return With(t, step, v)
    if step[0] == "f" and Fld(t, step[1], step[2]) is v:
        return t
    if step[0] == "i" and Idx(t, step[1]) is v:
        return t
    return T("with", t, step, v)


def strip_cast(t):
    while t.k == "app" and t.a[0] in ("cast:u64", "cast:i64", "cast:u32", "cast:i32"):
        t = t.a[1][0]
    return t


def Idx(t, i):
    i = strip_cast(i)
    k = t.k
    if i.k == "phi":
        return lift(i, lambda x: Idx(t, x))
    if k == "agg" and t.a[0] == "array":
        if i.k == "int":
            n = i.a[0]
            return t.a[2][n] if 0 <= n < len(t.a[2]) else BOT
        if len(t.a[2]) == 1 and i.k in ("iv", "bv"):
            return t.a[2][0]
        return T("idx", t, i)
    if k == "phi":
        return lift(t, lambda x: Idx(x, i))
    if k == "with" and t.a[1][0] == "i":
        j = t.a[1][1]
        if j is i:
            return t.a[2]
        if is_const(i) and is_const(j):
            return Idx(t.a[0], i)
    if k == "comp":
        # comp(L, init, alts, n)
        L, init, alts, n = t.a
        if is_empty(init) and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].k != "spread":
            return subst_bv(alts[0][1][0], L, i)
    if k == "sub":
        # sub(seq, from): seq[from..]
        return Idx(t.a[0], Add(t.a[1], i))
    if k == "str" and i.k == "int":
        n = i.a[0]
        b = t.a[0].encode("utf-8", "surrogateescape")
        return Int(b[n]) if 0 <= n < len(b) else BOT
    if k == "bot":
        return BOT
    return T("idx", t, i)


def is_empty(t):
    return (t.k == "agg" and t.a[0] == "array" and not t.a[2]) or (t.k == "str" and t.a[0] == "")


EMPTYSEQ = Agg("array", 0, ())


def Len(t):
    k = t.k
    if k == "agg" and t.a[0] == "array":
        return Int(len(t.a[2]))
    if k == "str":
        return Int(len(t.a[0].encode("utf-8", "surrogateescape")))
    if k == "phi":
        return lift(t, Len)
    if k == "app" and t.a[0] == "repeat":
        return t.a[1][1]
    if k == "with" and t.a[1][0] == "i":
        return Len(t.a[0])
    if k == "snoc":
        return Add(Len(t.a[0]), Int(1))
    if k == "comp":
        L, init, alts, n = t.a
        if len(set(len(i) for _, i in alts)) == 1 and (len(alts) > 1 or not alts[0][0]) and not any(x.k == "spread" for _, i in alts for x in i):
            return Add(Len(init), Mul(Int(len(alts[0][1])), n))
    if k == "sub":
        return Add(Len(t.a[0]), Mul(Int(-1), t.a[1]))
    return T("len", t)


def Snoc(t, x):
    if t.k == "agg" and t.a[0] == "array":
        return T("agg", "array", 0, t.a[2] + (x,))
    return T("snoc", t, x)


def Sub(t, frm):
    if frm.k == "int" and frm.a[0] == 0:
        return t
    if t.k == "agg" and t.a[0] == "array" and frm.k == "int":
        return T("agg", "array", 0, t.a[2][frm.a[0]:])
    return T("sub", t, frm)


def Discr(t, vmap=None):
    """vmap: tuple of discriminants by variant index (None: same)"""
    if t.k == "agg":
        v = t.a[1]
        return Int(vmap[v] if vmap and v < len(vmap) and vmap[v] is not None else v)
    if t.k == "phi":
        return lift(t, lambda x: Discr(x, vmap))
    if t.k == "with" and t.a[1][0] == "f":
        return Discr(t.a[0], vmap)
    if t.k == "bot":
        return BOT
    ident = vmap is None or all(d is None or d == i for i, d in enumerate(vmap))
    return T("discr", t, None if ident else vmap)


# ------------------------------------------------------------------ arithmetic: polynomials
def to_poly(t):
    """-> dict monomial(tuple of terms) -> coef"""
    if t.k == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.k == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return Int(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return Int(c)
        if c == 1 and len(m) == 1:
            return m[0]
    p = fold_psum(p)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return T("poly", tuple(sorted(p.items(), key=lambda x: tuple(y.id for y in x[0]))))


def fold_psum(p):
    """psum(L, e, n) + e(n) = psum(L, e, n+1)"""
    for m in list(p):
        if len(m) == 1 and m[0].k == "psum" and p[m] == 1:
            L, e, n = m[0].a
            en = to_poly(subst_bv(e, L, n))
            if en and all(p.get(k, 0) == c for k, c in en.items()) and () not in en:
                q = dict(p)
                for k2 in en:
                    del q[k2]
                del q[m]
                nm = (T("psum", L, e, Add(n, Int(1))),)
                q[nm] = q.get(nm, 0) + 1
                return fold_psum({a: b for a, b in q.items() if b})
    return p


def depth(t):
    """the largest canonical index bound or free in t"""
    if t._d is None:
        d = 0
        if t.k in BINDERS or t.k == "bv":
            if t.a[0][0] == "α":
                d = t.a[0][1]
        for c in children(t):
            x = depth(c)
            if x > d:
                d = x
        t._d = d
    return t._d


def alpha(L, bodies):
    """-> (canonical name, renaming of a body)"""
    if L[0] == "α":
        return L, lambda x: x
    d = 1
    for x in bodies:
        d = max(d, depth(x) + 1)
    A = ("α", d)
    v = T("bv", A)
    return A, lambda x: subst_bv(x, L, v)


def bv_offsets(t, L, out):
    """constants added to the bound variable of L, over all its occurrences in t"""
    if L not in t.loops:
        return
    if t.k == "bv":
        out.add(0)
        return
    if t.k == "poly":
        const = 0
        own = False
        for m, c in t.a[0]:
            if m == ():
                const = c
            elif len(m) == 1 and m[0].k == "bv" and m[0].a[0] == L and c == 1:
                own = True
            else:
                for y in m:
                    bv_offsets(y, L, out)
        if own:
            out.add(const)
        return
    for c in children(t):
        bv_offsets(c, L, out)


def Psum(L, e, n):
    """sum of e(j) for j < n"""
    if e.k == "int" and e.a[0] == 0:
        return Int(0)
    if n.k == "int" and n.a[0] == 0:
        return Int(0)
    if n.k == "int" and 0 < n.a[0] <= 4:
        r = Int(0)
        for j in range(n.a[0]):
            r = Add(r, subst_bv(e, L, Int(j)))
        return r
    if n.k == "phi":
        return lift(n, lambda x: Psum(L, e, x))
    A, ren = alpha(L, (e,))
    e = ren(e)
    if A not in e.loops:
        return Mul(e, n)
    offs = set()
    bv_offsets(e, A, offs)
    m = min(offs) if offs else 0
    if 0 < m <= 4:
        e2 = subst_bv(e, A, Add(T("bv", A), Int(-m)))
        r = Psum(A, e2, Add(n, Int(m)))
        for j in range(m):
            r = Add(r, Neg(subst_bv(e2, A, Int(j))))
        return r
    return T("psum", A, e, n)


def Comp(L, init, alts, n):
    """init followed by the items of the iterations 0..n; alts: ((conditions, items), ...)"""
    if n.k == "int" and n.a[0] == 0:
        return init
    if n.k == "int" and 0 < n.a[0] <= 4 and len(alts) == 1 and not alts[0][0] and all(x.k != "spread" for x in alts[0][1]) \
            and (init.k == "snoc" or init.k == "agg" and init.a[0] == "array"):
        r = init
        for j in range(n.a[0]):
            for x in alts[0][1]:
                r = Snoc(r, subst_bv(x, L, Int(j)))
        return r
    bodies = [x for c, it in alts for x in it] + [x for c, it in alts for x, _ in c]
    A, ren = alpha(L, bodies)
    if A is not L:
        alts = tuple((frozenset((ren(x), y) for x, y in c), tuple(ren(x) for x in it)) for c, it in alts)
    if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1:
        x = alts[0][1][0]
        if init.k == "agg" and init.a[0] == "array" and init.a[2] and x.k != "spread" and A in x.loops:
            if subst_bv(x, A, Int(-1)) is init.a[2][-1]:
                x2 = subst_bv(x, A, Add(T("bv", A), Int(-1)))
                return Comp(A, T("agg", "array", 0, init.a[2][:-1]), ((frozenset(), (x2,)),), Add(n, Int(1)))
        # the elements of a sequence, one by one
        x = eta(x)
        if is_empty(init) and init.k == "agg" and x.k == "idx" and x.a[1].k == "bv" and x.a[1].a[0] == A and A not in x.a[0].loops \
                and Len(x.a[0]) is n:
            return x.a[0]
    return T("comp", A, init, alts, n)


def eta(x):
    """(y.0, y.1, ...) is y"""
    if x.k == "agg" and x.a[0] == "tuple" and len(x.a[2]) > 1:
        y = x.a[2][0]
        if y.k == "fld" and all(f.k == "fld" and f.a[0] is y.a[0] and f.a[2] == i for i, f in enumerate(x.a[2])) and y.a[0].k == "idx":
            return y.a[0]
    return x


def First(L, sig):
    A, ren = alpha(L, [t for t, _ in sig])
    return T("first", A, frozenset((ren(t), c) for t, c in sig))


def Add(a, b):
    if a.k == "bot" or b.k == "bot":
        return BOT
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def Neg(a):
    return Mul(Int(-1), a)


def SubI(a, b):
    return Add(a, Neg(b))


def Mul(a, b):
    if a.k == "bot" or b.k == "bot":
        return BOT
    pa, pb = to_poly(a), to_poly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def Not(t):
    if t.k == "bool":
        return Bool(not t.a[0])
    if t.k == "app" and t.a[0] == "not":
        return t.a[1][0]
    if t.k == "phi":
        return lift(t, Not)
    if t.k == "bot":
        return BOT
    return App("not", t)


def Eq(a, b):
    if a is b:
        return TRUE
    if a.k == "bot" or b.k == "bot":
        return BOT
    if is_const(a) and is_const(b):
        return FALSE
    if is_const(a):
        a, b = b, a
    if a.k == "bool_of" and b.k == "bool":
        pass
    if b.k == "bool":
        return a if b.a[0] else Not(a)
    if a.k == "phi":
        return lift(a, lambda x: Eq(x, b))
    if b.k == "phi":
        return lift(b, lambda x: Eq(a, x))
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[2]) == len(b.a[2]):
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = And(r, Eq(x, y))
            return r
    if not is_const(b) and b.id < a.id:
        a, b = b, a
    return App("eq", a, b)


def And(a, b):
    if a.k == "bool":
        return b if a.a[0] else FALSE
    if b.k == "bool":
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return App("and", a, b)


def Or(a, b):
    return Not(And(Not(a), Not(b)))


def Lt(a, b):
    if a.k == "int" and b.k == "int":
        return Bool(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if a.k == "float" and b.k == "float":
        return Bool(float(a.a[0]) < float(b.a[0]))
    if a.k == "phi":
        return lift(a, lambda x: Lt(x, b))
    if b.k == "phi":
        return lift(b, lambda x: Lt(a, x))
    if b.k == "int" and b.a[0] <= 0 and a.k in ("len", "first", "iv", "bv"):
        return FALSE
    # 0 < len(x)  <=>  len(x) != 0
    if a.k == "int" and a.a[0] == 0 and b.k == "len":
        return Not(Eq(b, Int(0)))
    return App("lt", a, b)


def Slt(a, b):
    """order of texts"""
    if a is b:
        return FALSE
    if a.k == "str" and b.k == "str":
        return Bool(a.a[0].encode("utf-8", "surrogateescape") < b.a[0].encode("utf-8", "surrogateescape"))
    if a.k == "phi":
        return lift(a, lambda x: Slt(x, b))
    if b.k == "phi":
        return lift(b, lambda x: Slt(a, x))
    return App("slt", a, b)


def Le(a, b):
    return Not(Lt(b, a))


# ------------------------------------------------------------------ strings
def parts(t):
    if t.k == "cat":
        return list(t.a[0])
    if t.k == "str":
        return [t] if t.a[0] else []
    if is_empty(t):
        return []
    return [t]


def Cat(*ts):
    out = []
    for t in ts:
        for p in parts(t):
            if p.k == "str" and out and out[-1].k == "str":
                out[-1] = Str(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    if not out:
        return Str("")
    if len(out) == 1:
        return out[0]
    return T("cat", tuple(out))


# ------------------------------------------------------------------ substitution
def rebuild(t, f, fb=None):
    """rebuild t with children mapped through f (using the simplifying constructors); fb: for what a
    binder binds"""
    k, a = t.k, t.a
    if fb is None:
        fb = f
    if k == "agg":
        return T("agg", a[0], a[1], tuple(f(x) for x in a[2]))
    if k == "phi":
        return Phi(a[0], [(l, f(x)) for l, x in a[1]])
    if k == "fld":
        return Fld(f(a[0]), a[1], a[2])
    if k == "idx":
        return Idx(f(a[0]), f(a[1]))
    if k == "len":
        return Len(f(a[0]))
    if k == "snoc":
        return Snoc(f(a[0]), f(a[1]))
    if k == "sub":
        return Sub(f(a[0]), f(a[1]))
    if k == "discr":
        return Discr(f(a[0]), a[1])
    if k == "with":
        st = a[1]
        if st[0] == "i":
            st = ("i", f(st[1]))
        return With(f(a[0]), st, f(a[2]))
    if k == "poly":
        r = Int(0)
        for m, c in a[0]:
            x = Int(c)
            for y in m:
                x = Mul(x, f(y))
            r = Add(r, x)
        return r
    if k == "psum":
        return Psum(a[0], fb(a[1]), f(a[2]))
    if k == "comp":
        alts = tuple((frozenset((fb(x), y) for x, y in c), tuple(fb(x) for x in it)) for c, it in a[2])
        return Comp(a[0], f(a[1]), alts, f(a[3]))
    if k == "first":
        return T("first", a[0], frozenset((fb(x), y) for x, y in a[1]))
    if k == "cat":
        return Cat(*[f(x) for x in a[0]])
    if k == "ref":
        p = tuple(("i", f(s[1])) if s[0] == "i" else s for s in a[1])
        return T("ref", a[0], p)
    if k == "app" and t.a[0] == "slt":
        return Slt(f(t.a[1][0]), f(t.a[1][1]))
    if k == "app":
        args = [f(x) for x in a[1]]
        n = a[0]
        if n == "not":
            return Not(args[0])
        if n == "eq":
            return Eq(*args)
        if n == "lt":
            return Lt(*args)
        if n == "and":
            return And(*args)
        if n.startswith("cast:"):
            return Cast(n[5:], args[0])
        if any(x.k == "bot" for x in args):
            return BOT
        return T("app", n, tuple(args))
    if k == "spread":
        return T("spread", f(a[0]))
    if k in ("fmtarg", "fmtargs", "dyn", "loopval"):
        def g(x):
            if isinstance(x, Term):
                return f(x)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(g(y) for y in x)
            return x
        return T(k, *[g(x) for x in a])
    return t


def Cast(ty, t):
    if t.k == "bot":
        return BOT
    if t.k == "phi":
        return lift(t, lambda x: Cast(ty, x))
    if t.k == "int":
        n = t.a[0]
        bits = int(ty[1:]) if ty[1:].isdigit() else 64
        n &= (1 << bits) - 1
        if ty[0] == "i" and n >> (bits - 1):
            n -= 1 << bits
        return Int(n)
    if t.k == "app" and t.a[0] == "cast:" + ty:
        return t
    return App("cast:" + ty, t)


def subst(t, test, g):
    """bottom-up substitution; test(t) says whether t may contain anything to replace; g(t) -> term or
    None"""
    memo = {}

    def go(x):
        if not test(x):
            return x
        r = memo.get(x)
        if r is None:
            r = g(x)
            if r is None:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def subst_bv(t, L, v):
    memo = {}

    def go(x):
        if L not in x.loops:
            return x
        r = memo.get(x)
        if r is None:
            if x.k == "bv" and x.a[0] == L:
                r = v
            elif x.k in BINDERS and x.a[0] == L:
                r = rebuild(x, go, lambda y: y)
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def subst_iv(t, L, v):
    return subst(t, lambda x: L in x.loops, lambda x: v if x.k == "iv" and x.a[0] == L else None)


def restrict(t, mid, labels):
    def g(x):
        if x.k == "phi" and x.a[0] == mid:
            return Phi(mid, [(l, restrict(y, mid, labels)) for l, y in x.a[1] if l in labels])
        return None
    return subst(t, lambda x: mid in x.mids, g)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


# ------------------------------------------------------------------ printing
def fmt(t, d=0):
    if d > 14:
        return "…"
    k, a = t.k, t.a
    g = lambda x: fmt(x, d + 1)
    if k in ("int", "float"):
        return str(a[0])
    if k == "bool":
        return str(a[0]).lower()
    if k == "str":
        return repr(a[0])
    if k == "sym":
        return str(a[0])
    if k == "agg":
        n = a[0].split("::")[-1] if isinstance(a[0], str) else str(a[0])
        return "%s#%d(%s)" % (n, a[1], ", ".join(g(x) for x in a[2]))
    if k == "ref":
        return "&%s%s" % (a[0], "".join("." + (str(s[2]) if s[0] == "f" else "[%s]" % g(s[1])) for s in a[1]))
    if k == "fld":
        return "%s.%s%s" % (g(a[0]), "" if a[1] == 0 else "%d/" % a[1], a[2])
    if k == "idx":
        return "%s[%s]" % (g(a[0]), g(a[1]))
    if k == "len":
        return "len(%s)" % g(a[0])
    if k == "app":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(g(x) for x in a[1]))
    if k == "phi":
        return "φ%s{%s}" % (abs(hash(a[0])) % 1000, " | ".join(g(x) for _, x in a[1]))
    if k == "poly":
        return "(" + " + ".join(("" if c == 1 and m else str(c) + ("*" if m else "")) + "*".join(g(x) for x in m) for m, c in a[0]) + ")"
    if k in ("mu", "iv", "bv"):
        return "%s%s%s" % (k, abs(hash(a[0])) % 1000, "" if k != "mu" else "<%s>" % (a[1:],))
    if k == "psum":
        return "Σ%s{%s}<%s" % (abs(hash(a[0])) % 1000, g(a[1]), g(a[2]))
    if k == "comp":
        return "%s++[%s | <%s]" % (g(a[1]), " / ".join("{%s}%s" % (",".join("%s=%s" % (g(x), y) for x, y in c), [g(x) for x in it]) for c, it in a[2]), g(a[3]))
    if k == "cat":
        return "cat(%s)" % ", ".join(g(x) for x in a[0])
    if k == "with":
        return "%s{%s:=%s}" % (g(a[0]), a[1][1:], g(a[2]))
    if k == "discr":
        return "discr(%s)" % g(a[0])

    def h(x):
        if isinstance(x, Term):
            return g(x)
        if isinstance(x, (tuple, frozenset)):
            return "(" + ",".join(h(y) for y in x) + ")"
        return str(x)
    return "%s(%s)" % (k, ", ".join(h(x) for x in a))
