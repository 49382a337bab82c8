"""Random interpretation (Gulwani and Necula) of the values the analysis computes: two gated values which could not
be shown the same are compared under interpretations of the arguments, drawn at random and repaired to fit the facts
known at that point. Nothing of the library is run: what is interpreted are the terms (values, merge points, sums,
sequences of loops) which the analysis derived. Anything without an exact interpretation makes the answer 'not known'."""
import hashlib
import random, math, time, struct, datetime, re
from term import *
import ai


class Unknown(Exception):
    """no exact interpretation"""


class Overflow(Unknown):
    """large numbers"""


class Undefined(Exception):
    """there is no such part (the way leads elsewhere)"""


class Reject(Exception):
    """the interpretation does not lead here"""


class Ag:
    __slots__ = ("tag", "variant", "fields")

    def __init__(self, tag, variant, fields):
        self.tag, self.variant, self.fields = tag, variant, list(fields)

    def __repr__(self):
        if self.tag == "tuple":
            return "(%s)" % ", ".join(map(repr, self.fields))
        return "%s#%d(%s)" % (str(self.tag).split("::")[-1], self.variant, ", ".join(map(repr, self.fields)))


class Con:
    """a value nothing is known about but how it was made"""
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, args

    def __repr__(self):
        return "%s%r" % (self.name, tuple(self.args))


STRS = ["", "a", "b", "0", "1", "7", "-1", "1.5", "-0.25", "true", "false", " a ", "é<&\"", "2015-03-05T01:02:03Z", "name", "18446744073709551615", "abc", "zz", "aééééééééééééééé", "éééééééééééééééé"]
FLOATS = [0.0, 1.0, -1.0, 0.5, -0.25, 12.3456789, 179.9999999, -180.0, 90.0, 214.7483647, 1e-7, 3.05e-5]
SHARED = ("alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::boxed::Box", "alloc::borrow::Cow")
SEQS = ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::collections::vec_deque::VecDeque")


def strlike(E, td):
    if td["k"] == "str":
        return True
    if td["k"] == "adt":
        if td["adt"] in ("alloc::string::String", "smol_str::SmolStr"):
            return True
        if td["adt"] in SHARED and td["a"]:
            return strlike(E, E.types[td["a"][0]])
    return False


class Valuation:
    def __init__(self, E, iid, rnd, ints, strs, floats):
        self.E, self.rnd = E, rnd
        self.ints, self.strs, self.floats = ints, strs, floats
        self.salt = rnd.random()
        body = E.inst[iid]["body"]
        self.types = {}
        for i in range(1, body["argc"] + 1):
            ty, name = body["locals"][i]
            self.types["arg:" + (name or str(i))] = ty
        self.vals = {}
        self.any = {}
        self.memo = {}
        self.ways = {}
        self.circular = 0
        self.again = {}
        self.steps = 0

    # ---------------------------------------------------------------- making values
    def make(self, ty, d=0):
        E, R = self.E, self.rnd
        td = E.types[ty]
        while td["k"] == "ref":
            ty = td["e"]
            td = E.types[ty]
        k = td["k"]
        if strlike(E, td):
            return R.choice(self.strs)
        if k == "bool":
            return R.random() < .5
        if k == "char":
            return ord(R.choice("ab1 é<"))
        if k in ("int", "uint"):
            return self.int(td)
        if k == "float":
            x = R.choice(self.floats)
            return struct.unpack("f", struct.pack("f", x))[0] if td["s"] == "f32" else x
        if k == "tuple":
            return Ag("tuple", 0, [self.make(t, d + 1) for t in td["a"]])
        if k == "array":
            n = td.get("n")
            if n is None:
                m = re.search(r"; (\d+)\]$", td["s"])
                n = int(m.group(1)) if m else None
            if n is None:
                raise Unknown("array %s" % td["s"])
            return [self.make(td["e"], d + 1) for _ in range(n)]
        if k == "slice":
            return [self.make(td["e"], d + 1) for _ in range(R.choice((0, 1, 1, 2, 2, 3)))]
        if k == "adt":
            a = td["adt"]
            if a in SEQS:
                t = td["a"][0]
                if E.types[t]["k"] == "array":
                    t = E.types[t]["e"]
                if self.long and strlike(E, E.types[t]) and R.random() < .4:
                    return ["e%d" % i for i in range(self.long + R.choice((1, 2, 3)))]
                return [self.make(t, d + 1) for _ in range(R.choice((0, 1, 1, 2, 2, 3)))]
            if a == "std::collections::hash::map::HashMap":
                out, keys = [], set()
                for _ in range(R.choice((0, 1, 2))):
                    x = self.make(td["a"][0], d + 1)
                    if x not in keys:
                        keys.add(x)
                        out.append(Ag("tuple", 0, [x, self.make(td["a"][1], d + 1)]))
                return out
            if a in SHARED:
                return self.make(td["a"][0], d + 1)
            if not td["v"] or a.startswith(("std::", "core::")) and a != "core::option::Option" or d > 9:
                return Con("some " + a, [R.random()])
            v = R.randrange(len(td["v"]))
            return Ag(a, v, [self.make(f[1], d + 1) for f in td["v"][v][1]])
        raise Unknown("type %s" % td.get("s"))

    def int(self, td):
        R = self.rnd
        bits, signed = td.get("bits", 64), td["k"] == "int"
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        x = R.random()
        if x < .55:
            n = R.choice(self.ints)
            if abs(n) > 1 << 20 and R.random() < .8:
                n = R.choice(self.ints)
        elif x < .9:
            n = R.randrange(-3, 8)
        elif x < .99:
            n = R.randrange(-100000, 100000)
        else:
            n = R.choice((lo, hi, hi // 3, 1 << 31, (1 << 31) - 1))
        return n if lo <= n <= hi else abs(n) % 4

    def of(self, name):
        v = self.vals.get(name)
        if v is None:
            if name in self.types:
                v = self.vals[name] = self.make(self.types[name])
            elif name.startswith(("opaque", "any")):
                raise Unknown(name)
            else:
                v = Con(name, [])
        return v

    # ---------------------------------------------------------------- places in the arguments
    def find(self, t):
        """-> (container, key, type) of the place t stands for; None when it is none"""
        path = []
        while t.k in ("fld", "idx"):
            path.append(t)
            t = t.a[0]
        if t.k != "sym" or t.a[0] not in self.types:
            return None
        name = t.a[0]
        self.of(name)
        cont, key, ty = self.vals, name, self.types[name]
        for p in reversed(path):
            v = cont[key]
            td = self.E.types[ty]
            while td["k"] == "ref" or td["k"] == "adt" and td["adt"] in SHARED and not strlike(self.E, td):
                ty = td["e"] if td["k"] == "ref" else td["a"][0]
                td = self.E.types[ty]
            if p.k == "fld":
                if not isinstance(v, Ag) or v.variant != p.a[1] or not isinstance(p.a[2], int) or p.a[2] >= len(v.fields):
                    return None
                ty = td["a"][p.a[2]] if td["k"] == "tuple" else td["v"][p.a[1]][1][p.a[2]][1]
                cont, key = v.fields, p.a[2]
            else:
                try:
                    i = self.ev(p.a[1])
                except (Unknown, Undefined):
                    return None
                if not isinstance(v, list) or not isinstance(i, int) or not 0 <= i < len(v):
                    return None
                if td["k"] in ("array", "slice"):
                    ty = td["e"]
                else:
                    if td["adt"] == "std::collections::hash::map::HashMap":
                        return None
                    ty = td["a"][0]
                    if self.E.types[ty]["k"] == "array":
                        ty = self.E.types[ty]["e"]
                cont, key = v, i
        td = self.E.types[ty]
        while td["k"] == "ref" or td["k"] == "adt" and td["adt"] in SHARED and not strlike(self.E, td):
            ty = td["e"] if td["k"] == "ref" else td["a"][0]
            td = self.E.types[ty]
        return cont, key, ty

    def put(self, place, v):
        cont, key, ty = place
        td = self.E.types[ty]
        if td["k"] in ("int", "uint"):
            if not isinstance(v, int) or isinstance(v, bool):
                return False
            b = td.get("bits", 64)
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if td["k"] == "int" else (0, (1 << b) - 1)
            if not lo <= v <= hi:
                return False
        elif td["k"] == "bool":
            if not isinstance(v, bool):
                return False
        elif strlike(self.E, td):
            if not isinstance(v, str):
                return False
        elif td["k"] == "float":
            if not isinstance(v, float):
                return False
        else:
            return False
        cont[key] = v
        self.clear()
        return True

    def clear(self):
        self.memo = {}
        self.ways = {}

    def redraw(self, place):
        cont, key, ty = place
        cont[key] = self.make(ty)
        self.clear()
        return True

    # ---------------------------------------------------------------- interpretation
    def ev(self, t, env=None):
        if env and t.loops and any(L in t.loops for L in env):
            return self.ev1(t, env)
        r = self.memo.get(t)
        if r is None:
            try:
                r = (0, self.ev1(t, None))
            except (Unknown, Undefined) as e:
                r = (1, e)
            self.memo[t] = r
        if r[0]:
            raise r[1]
        return r[1]

    def ev1(self, t, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unknown("steps")
        k, a = t.k, t.a
        ev = self.ev
        if k in ("int", "bool", "str"):
            return a[0]
        if k == "float":
            return float(a[0])
        if k == "sym":
            return self.of(a[0])
        if k == "bv":
            if env and a[0] in env:
                return env[a[0]]
            raise Unknown("bv")
        if k == "agg":
            if a[0] == "array":
                return [ev(x, env) for x in a[2]]
            return Ag(a[0], a[1], [Lazy(self, x, env) for x in a[2]])
        if k == "dyn":
            return ev(a[2], env)
        if k == "phi":
            return self.phi(t, env)
        if k == "fld":
            v = ev(a[0], env)
            if isinstance(v, Ag):
                if a[2] == "dyn":
                    return v
                if v.variant != a[1] or a[2] >= len(v.fields):
                    raise Undefined(fmt(t)[:80])
                return force(v.fields[a[2]])
            raise Unknown("field of %s" % type(v))
        if k == "idx":
            v, i = ev(a[0], env), ev(a[1], env)
            if isinstance(v, str):
                v = v.encode("utf-8", "surrogateescape")
            if not isinstance(v, (list, bytes)):
                raise Unknown("index of %r" % type(v))
            if not isinstance(i, int) or not 0 <= i < len(v):
                raise Undefined(fmt(t)[:80])
            return v[i]
        if k == "len":
            v = ev(a[0], env)
            if isinstance(v, str):
                return len(v.encode("utf-8", "surrogateescape"))
            if isinstance(v, list):
                return len(v)
            if isinstance(v, Con) and v.name in ("block", "zlib", "header", "data", "lzma", "be"):
                return 1 + self.hash(v) % 50000
            raise Unknown("length of %r" % (v,))
        if k == "discr":
            v = ev(a[0], env)
            if isinstance(v, Ag):
                if a[1] is not None and v.variant < len(a[1]) and a[1][v.variant] is not None:
                    return a[1][v.variant]
                return v.variant
            raise Unknown("variant of %r" % (v,))
        if k == "with":
            v, st = ev(a[0], env), a[1]
            x = ev(a[2], env)
            if st[0] == "f" and isinstance(v, Ag):
                if v.variant != st[1]:
                    raise Undefined("with")
                fs = list(v.fields)
                fs[st[2]] = x
                return Ag(v.tag, v.variant, fs)
            if st[0] == "i" and isinstance(v, list):
                i = ev(st[1], env)
                if not 0 <= i < len(v):
                    raise Undefined("with")
                return v[:i] + [x] + v[i + 1:]
            raise Unknown("with")
        if k == "snoc":
            v = ev(a[0], env)
            if v == "":
                v = []
            if isinstance(v, list):
                return v + [ev(a[1], env)]
            raise Unknown("snoc")
        if k == "sub":
            v, i = ev(a[0], env), ev(a[1], env)
            if isinstance(v, list):
                if i > len(v):
                    raise Undefined("sub")
                return v[i:]
            raise Unknown("sub")
        if k == "poly":
            r = 0
            for m, c in a[0]:
                x = c
                for y in m:
                    z = ev(y, env)
                    if isinstance(z, bool) or not isinstance(z, int):
                        raise Unknown("arithmetic of %r" % (z,))
                    x *= z
                r += x
            if abs(r) >= 1 << 31:
                raise Overflow("overflow")
            return r
        if k == "psum":
            L, e, n = a
            r = 0
            for j in range(self.count(ev(n, env))):
                r += ev(e, dict(env or {}, **{}) | {L: j})
            if abs(r) >= 1 << 31:
                raise Overflow("overflow")
            return r
        if k == "comp":
            L, init, alts, n = a
            v = ev(init, env)
            out = list(v) if isinstance(v, list) else v
            for j in range(self.count(ev(n, env))):
                e2 = dict(env or {})
                e2[L] = j
                hit = None
                for c, items in alts:
                    if self.conds(c, e2):
                        if hit is not None and hit is not items:
                            raise Unknown("two alternatives")
                        hit = items
                if hit is None:
                    raise Unknown("no alternative")
                for x in hit:
                    if x.k == "spread":
                        y = ev(x.a[0], e2)
                    else:
                        y = ev(x, e2)
                        if isinstance(out, list):
                            out.append(y)
                            continue
                    if isinstance(out, list) and not out and isinstance(y, str) and x.k == "spread":
                        out = y
                    elif isinstance(out, list) and isinstance(y, list):
                        out = out + y
                    elif isinstance(out, str) and isinstance(y, str):
                        out = out + y
                    else:
                        raise Unknown("items")
            return out
        if k == "first":
            return self.first(t, env)
        if k == "cat":
            out = ""
            for x in a[0]:
                y = ev(x, env)
                if isinstance(y, list) and not y:
                    y = ""
                if not isinstance(y, str):
                    raise Unknown("text of %r" % (y,))
                out += y
            return out
        if k == "app":
            return self.app(a[0], a[1], env)
        if k == "bot":
            raise Undefined("bot")
        raise Unknown(k)

    def first(self, t, env):
        """the first iteration in which the loop is left in this way"""
        full = self.E.full.get(t)
        if not full or env:
            raise Unknown("where a loop is left")
        out = set()
        for L, fs in full.items():
            hit = 1 << 20
            for j in range(40):
                rs = []
                for f in sorted(fs, key=lambda f: sorted(x.id for x, _ in f)):
                    try:
                        rs.append(self.conds(f, {L: j}))
                    except Undefined:
                        rs.append(False)
                    except Unknown:
                        rs.append(None)
                if True in rs:
                    hit = j
                    break
                if None in rs:
                    raise Unknown("where a loop is left")
            out.add(hit)
        if len(out) > 1:
            raise Unknown("where a loop is left")
        return out.pop()

    def count(self, n):
        if not isinstance(n, int) or n > 200:
            raise Unknown("rounds")
        return n

    def conds(self, c, env):
        """all hold"""
        r = True
        for t, f in c:
            if t.k in ("at", "way"):
                continue
            if t.k == "sym" and t.a[0].startswith("opaque"):
                r = None
                continue
            x = self.fact(t, f, env)
            if x is False:
                return False
            if x is None:
                r = None
        if r is None:
            raise Unknown("condition")
        return True

    def fact(self, t, f, env=None):
        """True, False, None"""
        try:
            v = self.ev(t, env)
        except Undefined:
            return False
        except Unknown:
            return None
        try:
            if f[0] == "=":
                return self.same(v, self.ev(f[1], None))
            hit = any(self.same(v, self.ev(c, None)) for c in f[1])
            return hit if f[0] == "in" else not hit
        except (Unknown, Undefined):
            return None

    def phi(self, t, env):
        ways = self.way(t.a[0], env)
        alts = dict(t.a[1])
        if ways is None:
            cand = list(alts)
        else:
            cand = [l for l in ways if l in alts]
            if not cand:
                raise Undefined("no way")
        if len(cand) == 1:
            return self.ev(alts[cand[0]], env)
        vs = []
        for l in cand:
            try:
                vs.append(self.ev(alts[l], env))
            except Undefined:
                pass
        if not vs:
            raise Undefined("no way")
        for x in vs[1:]:
            if not self.same(vs[0], x):
                raise Unknown("several ways")
        return vs[0]

    def way(self, mid, env=None):
        """the ways by which the merge point may have been reached; None: all"""
        d = self.ef.get(mid)
        if d is None:
            return None
        key = mid
        if not env and key in self.ways:
            r = self.ways[key]
            if r == "busy":
                self.circular += 1
                raise Unknown("circular")
            return r
        n = self.circular
        if not env:
            self.ways[key] = "busy"
        try:
            out = []
            for l, e in d.items():
                if self.edge(e, env) is not False:
                    out.append(l)
            if not env and (self.circular == n or len(out) <= 1 or self.again.get(key, 0) > 3):
                # otherwise what was left open as it is being asked may be known later
                self.ways[key] = out
            elif not env:
                self.again[key] = self.again.get(key, 0) + 1
        finally:
            if self.ways.get(key) == "busy":
                del self.ways[key]
        return out

    def edge(self, e, env):
        """may the way have been taken: True, False, None"""
        while isinstance(e, ai.By):
            try:
                w = self.way(e.mid, env)
            except Unknown:
                w = None
            ls = list(e.alts) if w is None else w
            if any(l not in e.alts for l in ls):
                return None
            if len(ls) == 1:
                e = e.alts[ls[0]]
                continue
            rs = [self.edge(e.alts[l], env) for l in ls]
            return False if rs and all(r is False for r in rs) else None
        if e == ai.IMPOSSIBLE:
            return False
        r = True
        for t, f in e.items():
            if t.k == "way":
                continue
            x = self.at(t.a[0], env) if t.k == "at" else self.fact(t, f, env)
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def at(self, mid, env):
        """was the merge point passed"""
        try:
            w = self.way(mid, env)
        except Unknown:
            return None
        if w is None:
            return None
        return None if any(l != ai.NP for l in w) else False

    def hash(self, v):
        return int.from_bytes(hashlib.blake2b(repr((self.salt, v)).encode(), digest_size=4).digest(), "little")

    # ---------------------------------------------------------------- functions
    def app(self, n, args, env):
        ev = self.ev
        if n in ("and",):
            x = ev(args[0], env)
            return ev(args[1], env) if x is True else x
        vs = [ev(x, env) for x in args]
        if n == "not":
            return not self.bool(vs[0])
        if n == "eq":
            return self.same(vs[0], vs[1])
        if n == "lt":
            x, y = vs
            if isinstance(x, int) and isinstance(y, int):
                return x < y
            raise Unknown("order of %r" % (x,))
        if n == "slt":
            x, y = vs
            if isinstance(x, str) and isinstance(y, str):
                return x.encode("utf-8", "surrogateescape") < y.encode("utf-8", "surrogateescape")
            raise Unknown("order")
        if n.startswith("cast:") and isinstance(vs[0], int):
            ty, x = n[5:], int(vs[0])
            bits = int(ty[1:])
            x &= (1 << bits) - 1
            if ty[0] == "i" and x >> bits - 1:
                x -= 1 << bits
            return x
        if n == "b2i" and isinstance(vs[0], bool):
            return int(vs[0])
        if n in ("utf8", "utf8s"):
            return vs[0]
        if n == "dec" and isinstance(vs[0], int) and not isinstance(vs[0], bool):
            return str(vs[0])
        if n == "fdisp" and isinstance(vs[0], float) and math.isfinite(vs[0]):
            return fdisp(vs[0])
        if n == "chars" and isinstance(vs[0], str):
            return [ord(c) for c in vs[0]]
        if n == "chr" and isinstance(vs[0], int):
            return chr(vs[0])
        f = FUN.get(n)
        if f is not None:
            try:
                return f(*vs)
            except (TypeError, ValueError, OverflowError, ZeroDivisionError, IndexError, AttributeError) as e:
                raise Unknown("%s of %r: %s" % (n, vs, e))
        if n.startswith("p:parse:"):
            return parse(n[8:], vs[0])
        if n.startswith("f2i:") and isinstance(vs[0], float):
            s, bits = n[4], int(n[5:])
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if s == "i" else (0, (1 << bits) - 1)
            x = vs[0]
            if x != x:
                return 0
            if x >= hi:
                return hi
            return lo if x <= lo else int(x)
        if n == "id of":
            return self.hash((n, vs)) if self.hash((n, vs, 1)) % 2 else self.hash((n, vs)) * 77777
        if n == "metadata":
            return Con(n, vs)
        if n == "progress":
            return Ag("core::option::Option", 1, [Con(n, vs)]) if self.hash((n, vs)) % 2 else Ag("core::option::Option", 0, [])
        if n == "tags of":
            k = self.hash((n, vs))
            return [Ag("tuple", 0, ["ab"[k >> i & 3 == 0], "xy"[k >> i + 2 & 1]]) for i in range(0, 12, 3)][:2 if k & 4096 else 1]
        if n == "json":
            return list(repr(vs).encode())
        if n in ("argument", "conn", "stmt", "p:from", "broken json"):
            return Con(n, vs)
        if n in ("p:exists", "p:is_file", "p:is_dir", "p:choice"):
            return bool(self.hash((n, vs)) % 2)
        if n in ("p:readable", "p:can_open", "p:works"):
            return self.hash((n, vs)) % 8 != 0
        if n == "header size":
            return 10 + self.hash((n, vs)) % 100
        if n == "data size":
            return 10 + self.hash((n, vs)) % 1000
        if n in ("block", "zlib", "lzma", "header", "data", "be", "ioerr", "raw size", "raw", "broken document", "unreadable attribute", "unreadable text", "cannot open", "broken zlib", "broken block", "part of", "no message"):
            return Con(n, vs)
        raise Unknown(n)

    def bool(self, v):
        if isinstance(v, bool):
            return v
        raise Unknown("no truth value")

    def same(self, a, b):
        a, b = force(a), force(b)
        if isinstance(a, Ag) and isinstance(b, Ag):
            if a.variant != b.variant:
                return False
            if len(a.fields) != len(b.fields):
                raise Unknown("shapes")
            unk = None
            for x, y in zip(a.fields, b.fields):
                try:
                    if not self.same(x, y):
                        return False
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
            return True
        if a in ("", []) and not isinstance(a, bool) and not isinstance(a, int) and b in ("", []) and not isinstance(b, (bool, int)):
            return True
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, list) or isinstance(a, list) and isinstance(b, str):
            if a in ("", []) or b in ("", []):
                return False
            s, l = (a, b) if isinstance(a, str) else (b, a)
            raise Unknown("text and sequence")
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            raise Unknown("kinds")
        if isinstance(a, float) and isinstance(b, float):
            if a != a or b != b:
                raise Unknown("nan")
            return a == b and math.copysign(1, a) == math.copysign(1, b)
        for t in (int, str):
            if isinstance(a, t) and isinstance(b, t):
                return a == b
        if isinstance(a, Con) and isinstance(b, Con) and a.name == b.name and len(a.args) == len(b.args):
            if all(self.same(x, y) for x, y in zip(a.args, b.args)):
                return True
        raise Unknown("kinds %r %r" % (a, b))


class Lazy:
    """a part of a value, worked out when needed"""
    __slots__ = ("v", "t", "env")

    def __init__(self, v, t, env):
        self.v, self.t, self.env = v, t, env

    def __repr__(self):
        try:
            return repr(self.v.ev(self.t, self.env))
        except (Unknown, Undefined):
            return "?"


def force(x):
    while isinstance(x, Lazy):
        x = x.v.ev(x.t, x.env)
    return x


def fdisp(x):
    from decimal import Decimal
    s = format(Decimal(repr(x)), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s


RESULT = "core::result::Result"
OPTION = "core::option::Option"


def okv(x):
    return Ag(RESULT, 0, [x])


def errv(x):
    return Ag(RESULT, 1, [Con("error", [x])])


def somev(x):
    return Ag(OPTION, 1, [x])


NONEV = lambda: Ag(OPTION, 0, [])


def parse(ty, s):
    if not isinstance(s, str):
        raise Unknown("parse")
    if ty[0] in "iu" and ty[1:].isdigit() or ty in ("usize", "isize"):
        bits = int(ty[1:]) if ty[1:].isdigit() else 64
        if not re.fullmatch(r"[+-]?[0-9]+", s, re.A):
            return errv(s)
        if s[0] == "-" and ty[0] == "u":
            return errv(s)
        n = int(s)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)
        return okv(n) if lo <= n <= hi else errv(s)
    if ty == "f64":
        if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s, re.A):
            return okv(float(s))
        if re.fullmatch(r"[+-]?(inf|infinity|nan)", s, re.I):
            raise Unknown("parse")
        return errv(s)
    if ty == "bool":
        return okv(s == "true") if s in ("true", "false") else errv(s)
    raise Unknown("parse " + ty)


def trunc_div(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def tround(x):
    return math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2 ** 52 else x


def from_ts(secs, nanos):
    if nanos != 0 or not -62135596800 <= secs <= 253402300799:
        raise ValueError
    return somev(Con("time", [secs, 0, 0]))


def rfc3339(t, fmt_, z):
    if t.name != "time" or t.args[2] != 0 or fmt_.variant != 0 or z is not True:
        raise ValueError
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t.args[0])
    return d.strftime("%Y-%m-%dT%H:%M:%SZ") if d.year >= 1000 else "%04d" % d.year + d.strftime("-%m-%dT%H:%M:%SZ")


def from_rfc3339(s):
    m = re.fullmatch(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d{1,3})?(Z|([+-])(\d\d):(\d\d))", s, re.A)
    if m:
        try:
            d = datetime.datetime.strptime(m.group(1), "%Y-%m-%dT%H:%M:%S")
        except ValueError:
            return errv(s)
        off = 0
        if m.group(4):
            if int(m.group(5)) > 23 or int(m.group(6)) > 59:
                return errv(s)
            off = (int(m.group(5)) * 60 + int(m.group(6))) * (60 if m.group(4) == "+" else -60)
        return okv(Con("time", [int((d - datetime.datetime(1970, 1, 1)).total_seconds()) - off, int((m.group(2) or ".0")[1:].ljust(3, "0")), off]))
    if not re.search(r"\d", s):
        return errv(s)
    raise ValueError


def ts(t):
    if t.name != "time":
        raise ValueError
    return t.args[0]


def has(m, k):
    if not isinstance(m, list):
        raise ValueError
    return any(force(x.fields[0]) == k for x in m)


def seq(v):
    if not isinstance(v, list):
        raise ValueError
    return v


def text(*vs):
    if not all(isinstance(v, str) and v.isascii() for v in vs):
        raise ValueError
    return vs[0] if len(vs) == 1 else vs


def num(*vs):
    if not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
        raise ValueError
    return vs


def flt(*vs):
    if not all(isinstance(v, float) and math.isfinite(v) for v in vs):
        raise ValueError
    return vs


def removed(v, i, swap):
    v = list(seq(v))
    if not 0 <= i < len(v):
        raise ValueError
    if swap:
        v[i] = v[-1]
        v.pop()
    else:
        v.pop(i)
    return v


def cut(v, i, j):
    if isinstance(v, str):
        b = v.encode()
        if not 0 <= i <= j <= len(b):
            raise ValueError
        return b[i:j].decode()
    if not 0 <= i <= j <= len(seq(v)):
        raise ValueError
    return v[i:j]


def boundary(s, i):
    b = text(s).encode("utf-8", "surrogateescape")
    return i == len(b) or 0 <= i < len(b) and not 0x80 <= b[i] < 0xc0


FUN = {
    "div": lambda x, y: trunc_div(*num(x, y)),
    "rem": lambda x, y: num(x, y) and x - y * trunc_div(x, y),
    "bitand": lambda x, y: num(x, y) and x & y,
    "bitor": lambda x, y: num(x, y) and x | y,
    "min": lambda *v: min(num(*v)),
    "max": lambda *v: max(num(*v)),
    "fadd": lambda x, y: flt(x, y) and x + y,
    "fsub": lambda x, y: flt(x, y) and x - y,
    "fmul": lambda x, y: flt(x, y) and x * y,
    "fdiv": lambda x, y: flt(x, y) and x / y,
    "fneg": lambda x: flt(x) and -x,
    "flt": lambda x, y: flt(x, y) and x < y,
    "fle": lambda x, y: flt(x, y) and x <= y,
    "feq": lambda x, y: flt(x, y) and x == y,
    "i2f": lambda x: num(x) and float(x),
    "f2f:f64": lambda x: flt(x) and x,
    "f2f:f32": lambda x: flt(x) and struct.unpack("f", struct.pack("f", x))[0],
    "p:round": lambda x: flt(x) and tround(x),
    "p:floor": lambda x: flt(x) and float(math.floor(x)),
    "p:ceil": lambda x: flt(x) and float(math.ceil(x)),
    "p:trunc": lambda x: flt(x) and float(math.trunc(x)),
    "p:abs": lambda x: abs(x) if isinstance(x, (int, float)) else 1 // 0,
    "p:from_timestamp": from_ts,
    "p:to_rfc3339_opts": rfc3339,
    "p:parse_from_rfc3339": from_rfc3339,
    "p:timestamp": ts,
    "p:timestamp_millis": lambda t: ts(t) * 1000 + t.args[1],
    "p:timestamp_subsec_millis": lambda t: ts(t) * 0 + t.args[1],
    "p:contains_key": has,
    "p:trim": lambda s: text(s).strip(" \t\n\r\x0b\x0c"),
    "p:trim_start": lambda s: text(s).lstrip(" \t\n\r\x0b\x0c"),
    "p:trim_end": lambda s: text(s).rstrip(" \t\n\r\x0b\x0c"),
    "p:to_lowercase": lambda s: text(s).lower(),
    "p:to_uppercase": lambda s: text(s).upper(),
    "p:to_ascii_lowercase": lambda s: text(s).lower(),
    "p:to_ascii_uppercase": lambda s: text(s).upper(),
    "p:starts_with": lambda s, w: s.startswith(w) if isinstance(s, str) else 1 // 0,
    "p:ends_with": lambda s, w: s.endswith(w) if isinstance(s, str) else 1 // 0,
    "p:contains": lambda s, w: w in s if isinstance(s, str) else 1 // 0,
    "p:contains_any": lambda s, w: any(x in s for x in w) if isinstance(s, str) else 1 // 0,
    "p:eq_ignore_ascii_case": lambda s, w: text(s).lower() == text(w).lower(),
    "p:replace": lambda s, x, y: s.replace(x, y) if x else 1 // 0,
    "remove": lambda v, i: removed(v, i, False),
    "swap_remove": lambda v, i: removed(v, i, True),
    "but_last": lambda v: seq(v)[:-1],
    "slice": cut,
    "p:is_char_boundary": boundary,
    "p:reverse": lambda v: seq(v)[::-1],
}


# -------------------------------------------------------------------- search
def consts(ts):
    ints, strs, floats = set(), set(), set()
    seen = set()
    for t in ts:
        subterms(t, seen)
    for x in seen:
        if x.k == "int" and abs(x.a[0]) < 1 << 31:
            ints.update((x.a[0], x.a[0] + 1, x.a[0] - 1))
        elif x.k == "str" and len(x.a[0]) < 40:
            strs.add(x.a[0])
            if len(x.a[0]) < 12:
                strs.add(x.a[0] + "x")
        elif x.k == "float":
            v = float(x.a[0])
            if math.isfinite(v) and abs(v) < 1e12:
                floats.update((v, v + 1.0))
        elif x.k == "poly":
            for m, c in x.a[0]:
                if abs(c) < 1 << 31:
                    ints.add(c)
    return ints, strs, floats


class Search:
    def __init__(self, E, iid, st, a, b, seed=1):
        self.E, self.iid, self.st, self.a, self.b = E, iid, st, a, b
        self.facts = [(t, f) for t, f in st.facts.items() if t.k not in ("at", "way")]
        self.atset = set(t.a[0] for t in st.facts if t.k == "at")
        self.rnd = random.Random(seed)
        ts = [a, b] + [t for t, _ in self.facts]
        for _, f in self.facts:
            ts.extend([f[1]] if f[0] == "=" else f[1])
        for d in st.ef.values():
            for e in d.values():
                if isinstance(e, dict):
                    ts.extend(t for t in e if t.k not in ("at", "way"))
        i, s, f = consts(ts)
        self.ints = sorted(i)[:60] + [0, 1, 2, -1]
        self.strs = sorted(s)[:40] + STRS
        if any(x.k == "app" and x.a[0] in ("chars", "p:contains_any", "p:replace") for t in (a, b) for x in subterms(t)):
            # single characters matter
            self.strs = sorted(s)[:20] + STRS[:6] + ["<", ">", "&", '"', "'", "a'", 'x"'] * 3
        self.floats = sorted(f)[:20] + FLOATS
        # numbers which are cut off need long tables
        self.long = 0
        seen = set()
        for t in ts:
            subterms(t, seen)
        for x in seen:
            if x.k == "app" and x.a[0] in ("cast:u8", "cast:i8", "cast:u16", "cast:i16"):
                n = 1 << int(x.a[0][6:])
                self.long = max(self.long, n)
                self.ints += [n, n + 1, n + 2, n, n + 1] * 4
        self.mids = sorted((a.mids | b.mids) & set(st.ef), key=repr)
        self.why = {}

    def valuation(self):
        v = Valuation(self.E, self.iid, self.rnd, self.ints, self.strs, self.floats)
        v.ef = self.st.ef
        v.long = self.long
        return v

    # what to change so that a fact holds
    def leaves(self, t, v, out, seen, env=None):
        if t in seen:
            return
        seen.add(t)
        if t.k in ("sym", "fld", "idx"):
            p = None
            try:
                p = v.find(t)
            except (Unknown, Undefined):
                pass
            if p is not None:
                out.append((t, p))
        if t.k == "phi":
            try:
                w = v.way(t.a[0])
            except Unknown:
                w = None
            for l, x in t.a[1]:
                if w is None or l in w:
                    self.leaves(x, v, out, seen)
            return
        for c in children(t):
            self.leaves(c, v, out, seen)

    def shake(self, v, t):
        out = []
        self.leaves(t, v, out, set())
        small = [p for _, p in out if v.E.types[p[2]]["k"] != "adt" or strlike(v.E, v.E.types[p[2]]) or len(v.E.types[p[2]]["v"]) > 1]
        if small and self.rnd.random() < .8:
            return v.redraw(self.rnd.choice(small))
        if out:
            return v.redraw(self.rnd.choice(out)[1])
        return False

    def make(self, v, t, want, d=0):
        """change v so that t is want"""
        R = self.rnd
        if d > 6:
            return False
        if t.k in ("sym", "fld", "idx"):
            p = v.find(t)
            if p is not None and v.put(p, want):
                return True
            if t.k == "fld" and p is None and self.define(v, t, d):
                return True
            return False
        if t.k == "phi":
            try:
                w = v.way(t.a[0])
            except Unknown:
                w = None
            alts = [(l, x) for l, x in t.a[1] if w is None or l in w]
            if alts and R.random() < .5:
                return self.make(v, R.choice(alts)[1], want, d + 1)
            l, x = R.choice(t.a[1])
            ok = self.push(v, t.a[0], l)
            return self.make(v, x, want, d + 1) or ok
        if t.k == "discr":
            return self.variant(v, t.a[0], want, d)
        if t.k == "len":
            return self.resize(v, t.a[0], want)
        if t.k == "poly":
            ms = [(m, c) for m, c in t.a[0] if len(m) == 1]
            R.shuffle(ms)
            for m, c in ms:
                try:
                    rest = want - (v.ev(t) - c * v.ev(m[0]))
                except (Unknown, Undefined, TypeError):
                    continue
                if rest % c == 0 and self.make(v, m[0], rest // c, d + 1):
                    return True
            return False
        if t.k == "app":
            n, args = t.a
            if n == "not":
                return self.make(v, args[0], not want, d + 1)
            if n == "and":
                if want is True:
                    return any([self.make(v, x, True, d + 1) for x in args])
                return self.make(v, R.choice(args), False, d + 1)
            if n in ("eq", "feq"):
                x, y = (args if R.random() < .5 else args[::-1])
                if want is True:
                    try:
                        return self.make(v, x, force(v.ev(y)), d + 1)
                    except (Unknown, Undefined):
                        return False
                return False
            if n == "lt":
                x, y = args
                try:
                    vx, vy = v.ev(x), v.ev(y)
                except (Unknown, Undefined):
                    return False
                if R.random() < .5:
                    return self.make(v, x, vy - 1 - R.choice((0, 0, 1)) if want else vy + R.choice((0, 0, 1)), d + 1)
                return self.make(v, y, vx + 1 + R.choice((0, 0, 1)) if want else vx - R.choice((0, 0, 1)), d + 1)
            if n in ("utf8", "utf8s") or n.startswith("cast:"):
                return self.make(v, args[0], want, d + 1)
            if n == "dec" and isinstance(want, str) and re.fullmatch(r"-?\d+", want):
                return self.make(v, args[0], int(want), d + 1)
            if n.startswith("p:parse:"):
                return False
            if n == "p:contains_key":
                return False
        return False

    def define(self, v, t, d):
        """make the variant right which t is a field of"""
        if t.k == "fld":
            x = t.a[0]
            if x.k == "app" and x.a[0].startswith("p:parse:"):
                return self.variant(v, x, t.a[1], d)
            p = v.find(x)
            if p is not None and isinstance(p[0][p[1]], Ag) and p[0][p[1]].variant != t.a[1]:
                return self.variant(v, x, t.a[1], d)
            return self.define(v, x, d + 1) if d < 6 else False
        if t.k in ("idx",):
            return self.define(v, t.a[0], d + 1) if d < 6 else False
        return False

    def variant(self, v, x, want, d):
        R = self.rnd
        if x.k == "app" and x.a[0].startswith("p:parse:") or x.k == "app" and x.a[0] == "p:parse_from_rfc3339":
            ty = x.a[0][8:] if x.a[0].startswith("p:parse:") else "date"
            if want == 0:
                s = R.choice(("0", "1", "5", "77") if ty[0] in "iuf" else ("true", "false") if ty == "bool" else ("2015-03-05T01:02:03Z", "1999-12-31T23:59:59Z", "1969-12-31T23:59:58.5Z", "1960-02-03T04:05:06.789+01:30", "2150-01-01T00:00:00Z"))
                if ty[0] == "f" and R.random() < .5:
                    s = R.choice(("1.5", "-0.25", "50.1"))
                if ty[0] == "i" and R.random() < .3:
                    s = "-" + s
            else:
                s = R.choice(("", "x", "1x"))
            return self.make(v, x.a[1][0], s, d + 1)
        if x.k == "phi":
            try:
                w = v.way(x.a[0])
            except Unknown:
                w = None
            alts = [y for l, y in x.a[1] if w is None or l in w]
            return self.variant(v, R.choice(alts), want, d + 1) if alts and d < 6 else False
        p = v.find(x)
        if p is None:
            return self.define(v, x, d)
        td = v.E.types[p[2]]
        if td["k"] != "adt":
            return False
        for i, f in enumerate(td["v"]):
            dv = f[2] if td.get("enum") and len(f) > 2 and f[2] is not None else i
            if dv == want:
                p[0][p[1]] = Ag(td["adt"], i, [v.make(g[1], 2) for g in f[1]])
                v.clear()
                return True
        return False

    def resize(self, v, x, want):
        if not isinstance(want, int) or not 0 <= want < 60 + self.long * 2:
            return False
        while x.k == "app" and x.a[0] in ("utf8", "utf8s", "chars"):
            x = x.a[1][0]
        p = v.find(x)
        if p is None:
            return False
        cur = p[0][p[1]]
        td = v.E.types[p[2]]
        if isinstance(cur, str):
            p[0][p[1]] = (cur if cur.isascii() else "abc" + "d" * want)[:want].ljust(want, "q")
            v.clear()
            return True
        if isinstance(cur, list) and td["k"] in ("adt", "slice"):
            if td["k"] == "slice":
                t = td["e"]
            else:
                t = td["a"][0]
                if v.E.types[t]["k"] == "array":
                    t = v.E.types[t]["e"]
            while len(cur) < want:
                cur.append(v.make(t, 2))
            del cur[want:]
            v.clear()
            return True
        return False

    def push(self, v, mid, l, d=0):
        """try to go by the way l"""
        e = self.st.ef.get(mid, {}).get(l)
        n = 0
        while isinstance(e, ai.By):
            ls = [(k, x) for k, x in e.alts.items() if x != ai.IMPOSSIBLE]
            if not ls or n > 6:
                return False
            k, x = self.rnd.choice(ls)
            if d < 3:
                self.push(v, e.mid, k, d + 1)
            e = x
            n += 1
        ok = False
        if e:
            for t, f in e.items():
                if t.k not in ("at", "way") and v.fact(t, f) is False:
                    ok = self.repair(v, t, f) or ok
        return ok

    def repair(self, v, t, f):
        R = self.rnd
        if f is not None and R.random() < .85:
            try:
                if f[0] == "=":
                    if self.make(v, t, v.ev(f[1])):
                        return True
                elif f[0] == "in":
                    if self.make(v, t, v.ev(R.choice(sorted(f[1])))):
                        return True
                elif t.k == "len":
                    if self.make(v, t, R.choice((1, 2, 3, 4))):
                        return True
                elif t.k == "discr" and self.make(v, t, R.choice((0, 1, 2))):
                    return True
            except (Unknown, Undefined):
                pass
        return self.shake(v, t)

    def fit(self, v, rounds=60):
        """repair v until the facts hold: True, or None"""
        for _ in range(rounds):
            bad = []
            for t, f in self.facts:
                r = v.fact(t, f)
                if r is None:
                    try:
                        v.ev(t)
                    except Overflow:
                        bad.append((t, None))
                        continue
                    except Unknown as e:
                        self.why["fact %s: %s" % (fmt(t)[:60], e)] = 1
                    except Undefined:
                        pass
                    return None
                if r is False:
                    bad.append((t, f))
            if not bad:
                for m in self.st.ef:
                    try:
                        w = v.way(m)
                    except Unknown as e:
                        continue
                    if not w or m in self.atset and all(l == ai.NP for l in w):
                        bad.append(m)
                if not bad:
                    return True
                m = self.rnd.choice(bad)
                ls = list(self.st.ef[m])
                self.push(v, m, self.rnd.choice(ls))
                continue
            t, f = self.rnd.choice(bad)
            if not self.repair(v, t, f):
                if len(bad) == 1:
                    return None
        return None

    def run(self, tries=60, steps=8, until=None):
        """an interpretation under which a and b are different; None if none was found"""
        for i in range(tries):
            if until is not None and time.time() > until:
                break
            try:
                v = self.valuation()
                if self.mids and i % 2:
                    m = self.rnd.choice(self.mids)
                    self.push(v, m, self.rnd.choice(list(self.st.ef[m])))
                for k in range(steps):
                    if self.fit(v) is not True:
                        self.why["does not fit"] = self.why.get("does not fit", 0) + 1
                        break
                    try:
                        if not v.same(v.ev(self.a), v.ev(self.b)):
                            return v
                    except Unknown as e:
                        self.why[str(e)[:80]] = self.why.get(str(e)[:80], 0) + 1
                    except Undefined as e:
                        self.why["undefined %s" % e] = 1
                    # somewhere near
                    if self.mids and self.rnd.random() < .5:
                        m = self.rnd.choice(self.mids)
                        self.push(v, m, self.rnd.choice(list(self.st.ef[m])))
                    else:
                        for _ in range(self.rnd.choice((1, 1, 2, 4))):
                            self.shake(v, self.rnd.choice((self.a, self.b)))
            except Unknown as e:
                self.why[str(e)[:80]] = self.why.get(str(e)[:80], 0) + 1
            except RecursionError:
                self.why["deep"] = 1
        return None



def show(v):
    out = []
    for n in sorted(v.vals):
        out.append("%s = %r" % (n[4:] if n.startswith("arg:") else n, v.vals[n]))
    return "; ".join(out)[:700]


def witness(E, iid, st, a, b, tries=200, until=None):
    s = Search(E, iid, st, a, b)
    v = s.run(tries, until=until)
    return (None, s.why) if v is None else (show(v), s.why)
