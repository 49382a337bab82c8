"""C18: the generated PBF message code (parsing, accessors, defaults) against the published format.

The schema below is the published one (fileformat.proto and osmformat.proto of the OSM PBF format), written down here
independently of the generated code. Each function of each message type is interpreted abstractly from its MIR for an
input stream which holds given fields with arbitrary values."""
import os, time, multiprocessing
from term import *
import valuate, ai, equal, laws
from prims import Some, NONE, ret, C, D, setref
from docs import Ok_, Err_

# kind: scalar type of the format, or the name of a message; label: req / opt / rep
V = lambda s: [tuple(x.split()) for x in s.strip().split(";") if x.strip()]
SCHEMA = {
    "BlobHeader": V("req string type 1; opt bytes indexdata 2; req int32 datasize 3"),
    "Blob": V("opt bytes raw 1; opt int32 raw_size 2; opt bytes zlib_data 3; opt bytes lzma_data 4; opt bytes OBSOLETE_bzip2_data 5"),
    "HeaderBlock": V("opt HeaderBBox bbox 1; rep string required_features 4; rep string optional_features 5; opt string writingprogram 16; opt string source 17; "
                     "opt int64 osmosis_replication_timestamp 32; opt int64 osmosis_replication_sequence_number 33; opt string osmosis_replication_base_url 34"),
    "HeaderBBox": V("req sint64 left 1; req sint64 right 2; req sint64 top 3; req sint64 bottom 4"),
    "PrimitiveBlock": V("req StringTable stringtable 1; rep PrimitiveGroup primitivegroup 2; opt int32 granularity 17 100; opt int64 lat_offset 19 0; opt int64 lon_offset 20 0; opt int32 date_granularity 18 1000"),
    "PrimitiveGroup": V("rep Node nodes 1; opt DenseNodes dense 2; rep Way ways 3; rep Relation relations 4; rep ChangeSet changesets 5"),
    "StringTable": V("rep bytes s 1"),
    "Info": V("opt int32 version 1 -1; opt int64 timestamp 2; opt int64 changeset 3; opt int32 uid 4; opt uint32 user_sid 5; opt bool visible 6"),
    "DenseInfo": V("rep int32 version 1; rep sint64 timestamp 2; rep sint64 changeset 3; rep sint32 uid 4; rep sint32 user_sid 5; rep bool visible 6"),
    "ChangeSet": V("req int64 id 1"),
    "Node": V("req sint64 id 1; rep uint32 keys 2; rep uint32 vals 3; opt Info info 4; req sint64 lat 8; req sint64 lon 9"),
    "DenseNodes": V("rep sint64 id 1; opt DenseInfo denseinfo 5; rep sint64 lat 8; rep sint64 lon 9; rep int32 keys_vals 10"),
    "Way": V("req int64 id 1; rep uint32 keys 2; rep uint32 vals 3; opt Info info 4; rep sint64 refs 8"),
    "Relation": V("req int64 id 1; rep uint32 keys 2; rep uint32 vals 3; opt Info info 4; rep int32 roles_sid 8; rep sint64 memids 9; rep enum types 10"),
}
VARINT = ("int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum")
ENUMS = {"MemberType": {"NODE": 0, "WAY": 1, "RELATION": 2}}


class Fld_:
    def __init__(self, x):
        self.label, self.kind, self.name, self.num = x[0], x[1], x[2], int(x[3])
        self.default = x[4] if len(x) > 4 else None
        self.rust = self.name + "_" if self.name in ("type",) else self.name

    def tags(self):
        """(tag, packed)"""
        wt = 0 if self.kind in VARINT else 2
        out = [((self.num << 3) | wt, False)]
        if self.label == "rep" and wt == 0:
            out.append(((self.num << 3) | 2, True))
        return out

    def message(self):
        return self.kind in SCHEMA


FIELDS = {m: [Fld_(x) for x in fs] for m, fs in SCHEMA.items()}
WIRE = "wire"       # (position): the stream; what comes next is in E.wire


def hook(E, callee, args, st, ctx, b, span):
    p = callee.get("rpath") or callee.get("path") or ""
    w = getattr(E, "wire", None)
    if p.endswith("::default_instance"):
        i = callee.get("inst")
        if i is not None and "body" in E.inst[i] and E.inst[i]["crate"] == "osmio":
            return E.run_inst(i, args, st, E.ctx("call", ctx, b, i))
        return None
    if "protobuf::" not in p and not p.startswith("protobuf"):
        return None
    name = p.split("::")[-1]
    if w is None:
        return None
    if name == "read_raw_tag_or_eof":
        pos = C(E, st, args[0])
        if pos.k != "agg" or pos.a[0] != WIRE or pos.a[2][0].k != "int":
            return None
        n = pos.a[2][0].a[0]
        if n % 2:
            w["bad"] = "a value is left unread"
            return ret(Err_(Sym("stream out of step")), st)
        if n // 2 >= len(w["tags"]):
            return ret(Err_(App("stream error", Str("tag"))) if w["fail"] == "tag" else Ok_(NONE), st)
        return ret(Ok_(Some(Int(w["tags"][n // 2]))), setref(E, st, args[0], Agg(WIRE, 0, (Int(n + 1),))))
    if name in ("mut_unknown_fields", "unknown_fields"):
        return ret(args[0], st)
    kind = packed = None
    into = None
    if name == "read_unknown_or_skip_group":
        stream, kind = args[1], "unknown"
    elif name == "read_singular_message_into_field":
        stream, into, kind = args[0], args[1], "message"
    elif name == "read_repeated_packed_enum_or_unknown_into":
        stream, into, kind, packed = args[0], args[1], "enum", True
    elif name.startswith("read_repeated_packed_") and name.endswith("_into"):
        stream, into, kind, packed = args[0], args[1], name[21:-5], True
    elif name == "read_message":
        stream, kind = args[0], "message"
    elif name == "read_enum_or_unknown":
        stream, kind = args[0], "enum"
    elif name.startswith("read_") and name[5:] in VARINT + ("string", "bytes", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"):
        stream, kind = args[0], name[5:]
    else:
        return None
    pos = C(E, st, stream)
    if pos.k != "agg" or pos.a[0] != WIRE or pos.a[2][0].k != "int":
        return None
    n = pos.a[2][0].a[0]
    if n % 2 == 0:
        w["bad"] = "a value is read where a tag comes"
        return ret(Err_(Sym("stream out of step")), st)
    i = n // 2
    w["read"].append((i, kind, bool(packed)))
    if w["fail"] == i:
        return ret(Err_(App("stream error", Int(i))), st)
    s = setref(E, st, stream, Agg(WIRE, 0, (Int(n + 1),)))
    v = App("wire " + kind, Int(i))
    if kind == "unknown":
        return ret(Ok_(UNIT), s)
    if kind == "message" and into is not None:
        old = C(E, s, into)
        new = Agg(old.a[0] if old.k == "agg" else "protobuf::message_field::MessageField", 0, (Some(App("merged", old, v)),))
        return ret(Ok_(UNIT), setref(E, s, into, new))
    if packed:
        old = C(E, s, into)
        v = App("wire " + kind + " packed", Int(i))
        if old.k == "agg" and old.a[0] == "array":
            return ret(Ok_(UNIT), setref(E, s, into, Agg("array", 0, old.a[2] + (v,))))
        return ret(Ok_(UNIT), setref(E, s, into, App("appended", old, v)))
    return ret(Ok_(v), s)


class Msg:
    """one generated message type"""

    def __init__(self, F, path):
        self.F, self.path, self.name = F, path, path.split("::")[-1]
        self.mod = "::".join(path.split("::")[1:3])
        self.fns = {}
        for p, f, i, t in F["messages"]:
            if p == path:
                self.fns.setdefault(f, []).append(i)
                self.ty = t
        self.schema = FIELDS[self.name]
        self.names = {}

    def struct(self, E):
        return [n for n, _ in E.types[self.ty]["v"][0][1]]

    def types(self, E):
        return [t for _, t in E.types[self.ty]["v"][0][1]]

    def value(self, E, given, default="unset"):
        """a message: given field -> term, others unset (or default=='old': set to arbitrary older values)"""
        out = []
        fs = {f.rust: f for f in self.schema}
        for n, t in zip(self.struct(E), self.types(E)):
            f = fs.get(n)
            if n in given:
                out.append(given[n])
            elif f is None:
                out.append(Sym("special:" + n))
            elif default == "old":
                out.append(old_value(E, f, t))
            else:
                out.append(unset(E, f, t))
        return Agg(E.types[self.ty]["adt"], 0, tuple(out))


MF = "protobuf::message_field::MessageField"


def mf(E, t):
    return E.types[t]["adt"] if E.types[t]["k"] == "adt" else MF


def unset(E, f, t):
    if f.label == "rep":
        return Agg("array", 0, ())
    if f.message():
        return Agg(mf(E, t), 0, (NONE,))
    return NONE


def old_value(E, f, t):
    v = Sym("old " + f.name)
    if f.label == "rep":
        return Agg("array", 0, (v,))
    if f.message():
        return Agg(mf(E, t), 0, (Some(v),))
    return Some(v)


def wire(f, i, packed):
    k = "message" if f.message() else f.kind
    return App("wire " + k + (" packed" if packed else ""), Int(i))


def after(E, f, t, occ, before):
    """the field f after the occurrences occ [(index, packed)]"""
    for i, packed in occ:
        v = wire(f, i, packed)
        if f.label == "rep":
            before = Agg("array", 0, before.a[2] + (v,))
        elif f.message():
            before = Agg(mf(E, t), 0, (Some(App("merged", before, v)),))
        else:
            before = Some(v)
    return before


NUMBERS = ("int32", "int64", "uint32", "uint64", "sint32", "sint64", "enum")


def kinds(t):
    return sorted({x.a[0].split()[1] for x in subterms(t) if x.k == "app" and x.a[0].startswith("wire ")})


def loses(got, want):
    """the bytes of one field are read as a kind of number which does not tell apart, or mixes up, values of the right kind"""
    g, w = kinds(got), kinds(want)
    if len(g) != 1 or len(w) != 1 or g[0] not in NUMBERS or w[0] not in NUMBERS or g == w:
        return False
    g, w = g[0], w[0]
    return (g[0] == "s") != (w[0] == "s") or g.endswith("32") and w.endswith("64")


SAMPLES = (0, 1, 2, 127, 300, 40000, 70000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 40) + 5, (1 << 64) - 1, (1 << 64) - 300)


def number(kind, r):
    """the number a varint stands for in a field of this kind"""
    b = 32 if kind.endswith("32") or kind == "enum" else 64
    if kind == "bool":
        return r != 0
    r &= (1 << b) - 1
    if kind[0] == "s":
        return (r >> 1) ^ -(r & 1)
    if kind[0] != "u" and r >> b - 1:
        r -= 1 << b
    return r


def worked(t, r, ef=None):
    """the value of t where the varint read is r; KeyError: not known"""
    if t.k == "int" or t.k == "bool":
        return t.a[0]
    if t.k == "agg":
        return (t.a[0], t.a[1]) + tuple(worked(x, r, ef) for x in t.a[2])
    if t.k == "app":
        n = t.a[0]
        if n.startswith("wire ") and n[5:] in VARINT:
            return number(n[5:], r)
        vs = [worked(x, r, ef) for x in t.a[1]]
        if n.startswith("cast:"):
            ty, x = n[5:], int(vs[0])
            bits = int(ty[1:])
            x &= (1 << bits) - 1
            return x - (1 << bits) if ty[0] == "i" and x >> bits - 1 else x
        if n == "b2i":
            return int(vs[0])
        if n == "lt":
            return vs[0] < vs[1]
        if n in valuate.FUN and all(isinstance(v, int) for v in vs):
            return valuate.FUN[n](*vs)
    if t.k == "poly":
        out = 0
        for m, c in t.a[0]:
            for x in m:
                c *= worked(x, r, ef)
            out += c
        return out
    if t.k == "eq":
        return worked(t.a[0], r, ef) == worked(t.a[1], r, ef)
    if t.k == "not":
        return not worked(t.a[0], r, ef)
    if t.k == "phi":
        vs = []
        for l, x in t.a[1]:
            e = ai.plain((ef.get(t.a[0]) or {}).get(l) or {})
            if all(k.k in ("at", "way") or holds(k, f, r, ef) for k, f in e.items()):
                vs.append(worked(x, r, ef))
        if vs and all(v == vs[0] for v in vs):
            return vs[0]
    raise KeyError(t.k)


def holds(t, f, r, ef):
    v = worked(t, r, ef)
    if f[0] == "=":
        return v == (worked(f[1], r, ef) if hasattr(f[1], "k") else f[1])
    hit = any(v == (worked(x, r, ef) if hasattr(x, "k") else x) for x in f[1])
    return hit if f[0] == "in" else not hit


def misread(got, want, ef):
    """a varint for which the two are different"""
    for r in SAMPLES:
        try:
            if worked(got, r, ef) != worked(want, r, ef):
                return r
        except (KeyError, TypeError, ValueError, ZeroDivisionError, valuate.Unknown):
            return None
    return None


class Run:
    def __init__(self, F, m):
        self.F, self.m = F, m
        self.obl = []           # (label, verdict, why, functions)

    def engine(self):
        E = ai.Engine(self.F, hooks=hook)
        E.search_left = 0
        E.rounds = 64
        return E

    def note(self, label, verdict, why="", fn=None):
        self.obl.append((label, verdict, why, fn))

    def same(self, E, st, label, a, b, fn):
        c = equal.Cmp(E, st)
        r = c.eq(st.facts, a, b)
        if r is None and loses(a, b):
            r, c.why = False, "%s is read instead of %s" % (kinds(a), kinds(b))
        if r is None:
            v = misread(a, b, st.ef)
            if v is not None:
                r, c.why = False, "the varint %d is read as %s" % (v, fmt(a)[:200])
        if r is False and not laws.clear(E, st):
            r = None
        self.note(label, r, c.why or "", fn)

    def fn(self, name):
        return self.m.fns.get(name, [])

    def call(self, E, iid, args, st):
        out = E.run_root(iid, args, st)
        self.visited = getattr(self, "visited", set()) | {"%s|%s" % (E.inst[i]["path"], E.inst[i]["span"].replace("/repo/", "")) for i in E.visited if E.inst[i]["crate"] == "osmio"}
        return out

    # -------------------------------------------------------- parsing
    def merge(self, label, seq, initial, fail=None):
        """seq: [(field or None, tag, packed)]"""
        m = self.m
        for iid in self.fn("merge_from"):
            E = self.engine()
            E.wire = {"tags": [t for _, t, _ in seq], "fail": fail, "read": [], "bad": None}
            st = ai.State()
            me, w = ("A", 1, "self"), ("A", 2, "is")
            start = m.value(E, {}, initial)
            st.mem[me] = start
            st.mem[w] = Agg(WIRE, 0, (Int(0),))
            outs = self.call(E, iid, [Ref(me), Ref(w)], st)
            fn = E.inst[iid]["path"]
            if not outs:
                self.note(label + ": returns", False, "no return is reached", fn)
                continue
            fs = {f.rust: f for f in m.schema}
            for v, s in outs:
                if E.wire["bad"]:
                    self.note(label + ": reads as many values as there are", False if len(outs) == 1 else None, E.wire["bad"], fn)
                    continue
                if fail is not None:
                    self.same(E, s, label + ": an error of the stream is passed on", Discr(C(E, s, v)), Int(1), fn)
                    continue
                self.same(E, s, label + ": succeeds", Discr(C(E, s, v)), Int(0), fn)
                got = C(E, s, s.mem[me])
                for k, (n, t) in enumerate(zip(m.struct(E), m.types(E))):
                    f = fs.get(n)
                    if f is None:
                        continue
                    occ = [(i, p) for i, (g, _, p) in enumerate(seq) if g is f]
                    want = after(E, f, t, occ, start.a[2][k])
                    self.same(E, s, "%s: %s" % (label, f.name), Fld(got, 0, k), want, fn)

    def tags_in_code(self):
        """every constant the code compares a tag with"""
        out = set()
        for iid in self.fn("merge_from"):
            for bl in self.F_inst(iid)["body"]["blocks"]:
                if bl and bl[1][0] == "switch":
                    out.update(c for c, _ in switch_targets(bl[1]))
        return out

    def F_inst(self, iid):
        if not hasattr(self, "_inst"):
            self._inst = {i["id"]: i for i in self.F["instances"]}
        return self._inst[iid]

    def parsing(self):
        m = self.m
        if not self.fn("merge_from"):
            self.note("merge_from", False, "not found")
            return
        known = {}
        for f in m.schema:
            for tag, packed in f.tags():
                known[tag] = f
                what = "%s%s" % (f.name, " (packed)" if packed else "")
                self.merge("%s in an empty message" % what, [(f, tag, packed)], "unset")
                self.merge("%s over older values" % what, [(f, tag, packed)], "old")
                self.merge("%s twice" % what, [(f, tag, packed)] * 2, "unset")
                self.merge("%s cannot be read" % what, [(f, tag, packed)], "unset", 0)
        whole = [(f,) + f.tags()[-1] for f in m.schema]
        self.merge("all fields", whole, "unset")
        self.merge("all fields, the last first", whole[::-1], "unset")
        self.merge("nothing", [], "old")
        self.merge("the next tag cannot be read", [], "unset", "tag")
        others = set(self.tags_in_code()) | {(n << 3) | w for n in list(range(1, 65)) + [100, 127, 128, 255, 256, 1000, 2048, 32768, 100000, (1 << 29) - 1] for w in (0, 1, 2, 5)}
        for t in sorted(others - set(known)):
            if t < 8:
                continue
            self.merge("unknown field %d of wire type %d" % (t >> 3, t & 7), [(None, t, False)] + whole, "old")

    # -------------------------------------------------------- accessors
    def read_accessor(self, name, label, given, want):
        for iid in self.fn(name):
            E = self.engine()
            st = ai.State()
            if len(self.F_inst(iid)["body"]["locals"]) < 2 or self.F_inst(iid)["body"]["argc"] != 1:
                continue
            me = self.m.value(E, given(E), "unset")
            outs = self.call(E, iid, [me], st)
            fn = E.inst[iid]["path"]
            if not outs:
                self.note(label, False, "never returns", fn)
            for v, s in outs:
                self.same(E, s, label, D(E, s, v), want(E), fn)

    def accessors(self):
        for f in self.m.schema:
            if f.label == "rep" or f.message():
                continue
            x = Sym("value of " + f.name)
            if f.default is not None:
                d = Int(int(f.default))
            elif f.kind == "bool":
                d = FALSE
            elif f.kind == "string":
                d = Str("")
            elif f.kind == "bytes":
                d = Agg("array", 0, ())
            else:
                d = Int(0)
            self.read_accessor(f.rust, "%s: the default" % f.name, lambda E: {}, lambda E: d)
            self.read_accessor(f.rust, "%s: the value" % f.name, lambda E: {f.rust: Some(x)}, lambda E: x)
            has = "has_" + f.name
            self.read_accessor(has, "has %s when it is not there" % f.name, lambda E: {}, lambda E: FALSE)
            self.read_accessor(has, "has %s when it is there" % f.name, lambda E: {f.rust: Some(x)}, lambda E: TRUE)

    # -------------------------------------------------------- required fields
    def whole(self, E, name, path, without=None):
        """a message of that type with everything which is required, but the field `without`"""
        m = Msg(self.F, path)
        given = {}
        for f, t in [(f, t) for f in m.schema for n, t in zip(m.struct(E), m.types(E)) if n == f.rust]:
            if f.name == without:
                continue
            if f.message() and f.label == "req":
                given[f.rust] = Agg(mf(E, t), 0, (Some(self.whole(E, f.kind, sibling(path, f.kind))),))
            elif f.label == "req":
                given[f.rust] = Some(Sym("value of " + f.name))
        return m.value(E, given)

    def required(self):
        m = self.m
        cases = [("everything required is there", None, None, TRUE)]
        for f in m.schema:
            if f.label == "req":
                cases.append(("%s is missing" % f.name, f.name, None, FALSE))
            if f.message():
                for g in FIELDS[f.kind]:
                    if g.label == "req":
                        cases.append(("%s has no %s" % (f.name, g.name), None, (f, g), FALSE))
                cases.append(("%s is whole" % f.name, None, (f, None), TRUE))
        for label, without, inner, want in cases:
            for iid in self.fn("is_initialized"):
                E = self.engine()
                st = ai.State()
                me = self.whole(E, m.name, m.path, without)
                if inner:
                    f, g = inner
                    x = self.whole(E, f.kind, sibling(m.path, f.kind), g and g.name)
                    k = m.struct(E).index(f.rust)
                    t = m.types(E)[k]
                    v = Agg("array", 0, (self.whole(E, f.kind, sibling(m.path, f.kind)), x)) if f.label == "rep" else Agg(mf(E, t), 0, (Some(x),))
                    me = Agg(me.a[0], 0, me.a[2][:k] + (v,) + me.a[2][k + 1:])
                outs = self.call(E, iid, [me], st)
                fn = E.inst[iid]["path"]
                if not outs:
                    self.note("complete: " + label, False, "never returns", fn)
                for v, s in outs:
                    self.same(E, s, "complete: " + label, C(E, s, v), want, fn)

    # -------------------------------------------------------- empty messages
    def empty(self):
        m = self.m
        for name in ("new", "default_instance", "clear"):
            for iid in self.fn(name):
                E = self.engine()
                st = ai.State()
                me = ("A", 1, "self")
                if name == "clear":
                    st.mem[me] = m.value(E, {}, "old")
                    args = [Ref(me)]
                else:
                    args = []
                if self.F_inst(iid)["body"]["argc"] != len(args):
                    continue
                outs = self.call(E, iid, args, st)
                fn = E.inst[iid]["path"]
                if not outs:
                    self.note(name + ": returns", False, "never returns", fn)
                want = m.value(E, {}, "unset")
                fs = {f.rust: f for f in m.schema}
                for v, s in outs:
                    got = C(E, s, s.mem[me]) if name == "clear" else D(E, s, v)
                    for k, n in enumerate(m.struct(E)):
                        if n in fs:
                            g = D(E, s, Fld(got, 0, k))
                            w = want.a[2][k]
                            if fs[n].label == "rep":
                                g, w = Len(g), Int(0)
                            self.same(E, s, "%s: %s" % (name, fs[n].name), g, w, fn)

    def all(self):
        m = self.m
        E = self.engine()
        have = set(m.struct(E)) - {"special_fields"}
        want = {f.rust for f in m.schema}
        self.note("the fields are those of the format", have == want, "missing: %s; not in the format: %s" % (sorted(want - have), sorted(have - want)), m.path)
        if have >= want:
            self.parsing()
            self.accessors()
            self.required()
            self.empty()


def switch_targets(t):
    for x in t:
        if isinstance(x, list) and x and all(isinstance(y, list) and len(y) == 2 and isinstance(y[0], int) for y in x):
            return x
    return []


def sibling(path, name):
    return "::".join(path.split("::")[:-1] + [name])


def enums(F):
    """the numbers of the enum values"""
    out = []
    for t in F["types"]:
        if t.get("k") == "adt" and t["adt"].startswith("osmio::") and t["adt"].split("::")[-1] in ENUMS and t.get("enum"):
            want = ENUMS[t["adt"].split("::")[-1]]
            got = {v[0]: v[2] for v in t["v"]}
            out.append(("%s has the published numbers" % t["adt"], got == want, "%s instead of %s" % (got, want), t["adt"]))
    return out


_F = None


def _one(path):
    r = Run(_F, Msg(_F, path))
    t0 = time.time()
    try:
        r.all()
        err = None
    except Exception as e:
        import traceback
        err = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().splitlines()[-3][:150])
    return path, r.obl, sorted(getattr(r, "visited", ())), err, time.time() - t0


def decide(prop, tier, dump, repo, here):
    global _F
    import props
    F, log = dump("probe")
    if F is None:
        return props.fail(prop, "the laws do not compile against the library", log[-1500:])
    _F = F
    paths = sorted({p for p, _, _, _ in F["messages"]})
    findings, und, n, ok, funs, errs = [], [], 0, 0, set(), []
    found = {(p.split("::")[1], p.split("::")[-1]) for p in paths}
    for copy in ("arcpbf", "stringpbf"):
        for m in SCHEMA:
            if (copy, m) not in found:
                findings.append({"key": "%s: %s is not there" % (copy, m), "why": "no generated code for this message", "where": []})
    paths = [p for p in paths if p.split("::")[-1] in SCHEMA]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        rs = pool.map(_one, paths, chunksize=1)
    samples = []
    obl = [("", x) for x in enums(F)] + [(p.replace("osmio::", ""), x) for p, o, _, _, _ in rs for x in o]
    for p, _, fs, err, _ in rs:
        funs.update(fs)
        if err:
            errs.append("%s: %s" % (p, err))
    for p, (label, v, why, fn) in obl:
        n += 1
        ok += v is True
        key = ("%s: %s" % (p, label)).strip(": ")
        if v is False:
            findings.append({"key": key, "why": why, "where": [str(fn)]})
        elif v is None:
            und.append("%s (%s)" % (key, str(why)[:160]))
        elif n % 301 == 1:
            samples.append(key)
    cov = {"explanation": "The MIR of the generated parsing functions, accessors, required-field tests and empty instances of every PBF message is interpreted abstractly for streams holding each field (packed and not, once, twice, over older values, all fields in both orders, unreadable values, unknown fields) with arbitrary values; the resulting field values are compared with the published schema in engine/messages.py.",
           "rule": "after merge_from every field of the message is exactly what the occurrences of its own field number, read with its own wire kind, make of it; defaults, required fields and enum numbers are the published ones",
           "messages": len(paths), "obligations": n, "discharged": ok, "undecided": und, "errors": errs,
           "functions_analysed": len(funs), "functions": sorted(x.replace("|", " ") for x in funs)[:400], "samples": samples}
    return {"level": "other", "findings": findings, "coverage": cov,
            "summary": "%d messages, %d statements, %d hold, %d undecided, %d violated, %d functions analysed" % (len(paths), n, ok, len(und) + len(errs), len(findings), len(funs))}
