"""PBF files as the format describes them (marks::Pbf): what reading, decompressing and parsing their parts gives."""
from prims import *
from prims import ours, rx, prim, ret, C, D, setref, by_path
from prims import Some, NONE
from docs import Ok_, Err_

MARK = "marks::Pbf"
EOF = "UnexpectedEof"


def unbox(v):
    return v


def file_of(E, st, r):
    """a reference to the file (perhaps behind wrappers which add nothing) -> reference, file"""
    v = C(E, st, r)
    if v.k == "agg" and v.a[0] == MARK:
        return r, v
    if v.k == "ref":
        return file_of(E, st, v)
    return None, None


def ioerr(E, eof):
    """an error of the stream"""
    t = E.adt("std::io::error::ErrorKind") or E.adt("core::io::error::ErrorKind")
    if t is None:
        for x in E.types:
            if x.get("k") == "adt" and x["adt"].endswith("::ErrorKind") and any(v[0] == EOF for v in x["v"]):
                t = x
    n = [i for i, v in enumerate(t["v"]) if v[0] == EOF][0]
    return App("ioerr", Agg(t["adt"], n, ()) if eof else Agg(t["adt"], (n + 1) % len(t["v"]), ()))


def at(E, st, f):
    blobs, end, n = C(E, st, f.a[2][0]), C(E, st, f.a[2][1]), C(E, st, f.a[2][2])
    if blobs.k != "agg" or end.k != "agg" or n.k != "int":
        return None
    n = n.a[0]
    ends = [v[0] for v in E.adt("marks::End")["v"]]
    return blobs.a[2], ends[end.a[1]], n // 3, n % 3, n


def step(E, st, r, f, n):
    return setref(E, st, r, Agg(MARK, 0, (f.a[2][0], f.a[2][1], Int(n + 1))))


def fails(E, st, what):
    """reading fails: the file ends, or something else"""
    if what == "size":
        return [(Err_(ioerr(E, False)), st)]
    a, b = st.copy(), st.copy()
    return [(Err_(ioerr(E, False)), a)]


def read(E, st, r, f, buf=None):
    """-> [(what comes next, state)]; size, header or data of a blob"""
    p = at(E, st, f)
    if p is None:
        return None
    blobs, end, i, part, n = p
    if i < len(blobs):
        return ("size", "header", "data")[part], i, blobs[i], n
    if end == "File":
        return "end", i, None, n
    if end == "NoSize":
        return "fail", i, None, n
    if part == 0:
        return "size", i, None, n
    if end == "NoHeader" or part == 2:
        return "cut", i, None, n
    return "header", i, None, n


def is_pbf(E, callee):
    return any(E.types[t].get("adt") == MARK for t in callee["a"] if isinstance(t, int))


@rx(r"^byteorder::io::ReadBytesExt::read_u32$")
def read_u32(E, callee, args, st, ctx, b, span):
    r, f = file_of(E, st, args[0])
    if f is None:
        return None
    x = read(E, st, r, f)
    if x is None:
        return None
    what, i, blob, n = x
    if what == "end":
        return ret(Err_(ioerr(E, True)), st)
    if what == "fail":
        return ret(Err_(ioerr(E, False)), st)
    if what != "size":
        return None
    order = [E.types[t].get("adt", "") for t in callee["a"] if isinstance(t, int)]
    if not any(o.endswith("::BigEndian") for o in order):
        return ret(Ok_(Sym("size read in the wrong byte order")), st)
    return ret(Ok_(App("header size", Int(i))), step(E, st, r, f, n))


@ours
@prim("marks::Pbf::read_exact")
def read_exact_(E, callee, args, st, ctx, b, span):
    return read_exact(E, callee, args, st, ctx, b, span)


@rx(r"^(std|alloc)::io::.*read_exact$", r"^<marks::Pbf as .*>::read_exact$")
def read_exact(E, callee, args, st, ctx, b, span):
    r, f = file_of(E, st, args[0])
    if f is None:
        return None
    x = read(E, st, r, f)
    if x is None:
        return None
    what, i, blob, n = x
    buf = C(E, st, args[1])
    ln = Len(buf)
    if what == "end":
        return ret(Err_(ioerr(E, True)), st)
    if what == "fail":
        return ret(Err_(ioerr(E, False)), st)
    if what == "cut":
        # the file ends, or reading fails otherwise
        out = []
        for eof in (True, False):
            s = st.copy()
            s.mem[("X", "cut")] = Bool(eof)
            out.append((Err_(ioerr(E, eof)), s))
        return out
    if what == "size":
        want, got = Int(4), App("be", App("header size", Int(i)))
    elif what == "header":
        want, got = App("header size", Int(i)), App("header", Int(i), blob if blob is not None else UNIT)
    else:
        want, got = App("data size", Int(i)), App("data", Int(i), blob if blob is not None else UNIT)
    v = ln
    while v.k == "app" and v.a[0].startswith("cast:"):
        v = v.a[1][0]
    if v is not want:
        got = App("bytes read with a wrong length", ln, got)
    s = step(E, st, r, f, n)
    return ret(Ok_(UNIT), setref(E, s, args[1], got))


@rx(r"^(std|alloc|core)::io::.*Read::by_ref$", r"^<marks::Pbf as .*Read>::by_ref$")
def by_ref(E, callee, args, st, ctx, b, span):
    return ret(args[0], st)


@rx(r"^(std|alloc|core)::io::.*Read::take$", r"^<marks::Pbf as .*Read>::take$")
def take(E, callee, args, st, ctx, b, span):
    r, f = file_of(E, st, args[0])
    if f is None or args[0].k != "ref":
        return None
    return ret(Agg("limited", 0, (args[0], args[1])), st)


@rx(r"^<(std|alloc|core)::io::.*Take<.*> as .*Read>::read$", r"^(std|alloc|core)::io::.*Read::read$")
def read_some(E, callee, args, st, ctx, b, span):
    """a single read, of all there is to be read or of nothing"""
    v = C(E, st, args[0])
    src, most = args[0], None
    if v.k == "agg" and v.a[0] == "limited":
        src, most = v.a[2]
    r, f = file_of(E, st, src)
    if f is None:
        return None
    buf = C(E, st, args[1])
    if most is not None and D(E, st, most) is not Len(buf):
        return None
    out = []
    for x, s in read_exact(E, callee, [src, args[1]], st, ctx, b, span) or []:
        if x.a[1] == 0:
            out.extend((Ok_(Len(buf)), s2) for t, s2 in E.branch(s, Eq(Len(buf), Int(0))) if t is FALSE or t is False)
        elif x.a[2][0] is ioerr(E, True):
            out.append((Ok_(Int(0)), s))
        else:
            out.append((x, s))
    return out or None


@rx(r"^alloc::vec::from_elem$")
def from_elem(E, callee, args, st, ctx, b, span):
    n = C(E, st, args[1])
    if n.k == "int" and n.a[0] <= 64:
        return ret(Agg("array", 0, (args[0],) * n.a[0]), st)
    return ret(App("repeat", args[0], n), st)


@rx(r"^(std|alloc|core)::io::error::Error::kind$")
def err_kind(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k == "app" and v.a[0] == "ioerr":
        return ret(v.a[1][0], st)
    if v.k == "phi" and all(x.k == "app" and x.a[0] == "ioerr" for _, x in v.a[1]):
        return ret(lift(v, lambda x: x.a[1][0]), st)
    return None


@rx(r"^<(core|std|alloc)::io::error::ErrorKind as core::cmp::PartialEq>::eq$")
def kind_eq(E, callee, args, st, ctx, b, span):
    return ret(Eq(Discr(C(E, st, args[0])), Discr(C(E, st, args[1]))), st)


def default_msg(E, ty):
    td = E.types[ty]
    if td["k"] == "adt":
        a = td["adt"]
        if a.endswith("::MessageField"):
            return Agg(a, 0, (NONE,))
        if a.endswith("::SpecialFields"):
            return Sym("special")
        if a.startswith("core::option"):
            return NONE
        if a.startswith("alloc::vec"):
            return EMPTYSEQ
        if a == "alloc::boxed::Box":
            return default_msg(E, td["a"][0])
        if len(td["v"]) == 1:
            return Agg(a, 0, tuple(default_msg(E, t) for _, t in td["v"][0][1]))
    if td["k"] == "bool":
        return FALSE
    if td["k"] in ("int", "uint"):
        return Int(0)
    return Sym("default")


def scalar(E, ty):
    td = E.types[ty]
    if td["k"] in ("int", "uint", "bool", "float", "str"):
        return True
    return td["k"] == "adt" and (td["adt"] == "alloc::string::String" or td["adt"].startswith("alloc::vec") and E.types[td["a"][0]].get("s") == "u8" or td["adt"].startswith("bytes::"))


def build(E, st, ty, d):
    """the value of this type which the description d describes"""
    td = E.types[ty]
    d = C(E, st, d)
    if scalar(E, ty):
        d = D(E, st, d)
        if td["k"] == "adt" and td["adt"].startswith("alloc::vec") and not (d.k == "app" and d.a[0] in ("block", "zlib", "broken zlib", "broken block")):
            return App("utf8", d)
        return d
    if td["k"] != "adt":
        return None
    a = td["adt"]
    if a.endswith("::MessageField"):
        if d.k == "agg" and d.a[0] == "core::option::Option":
            if d.a[1] == 0:
                return Agg(a, 0, (NONE,))
            x = build(E, st, td["a"][0], d.a[2][0])
            return None if x is None else Agg(a, 0, (Some(x),))
        return None
    if a == "core::option::Option":
        if scalar(E, td["a"][0]):
            return D(E, st, d)
        if d.k == "agg" and d.a[1] == 0:
            return NONE
        if d.k == "agg":
            x = build(E, st, td["a"][0], d.a[2][0])
            return None if x is None else Some(x)
        return None
    if a.startswith("alloc::vec"):
        t = td["a"][0]
        if d.k == "agg" and d.a[0] == "array":
            xs = [build(E, st, t, x) for x in d.a[2]]
            return None if any(x is None for x in xs) else Agg("array", 0, tuple(xs))
        if scalar(E, t) and not E.types[t]["k"] == "adt":
            return D(E, st, d)
        if scalar(E, t):
            return App("utf8s", D(E, st, d))
        return None
    if a == "alloc::boxed::Box":
        return build(E, st, td["a"][0], d)
    if a.endswith("::EnumOrUnknown"):
        return Agg(a, 0, (D(E, st, d), UNIT))
    if d.k == "agg" and E.adt(d.a[0]) is not None and len(td["v"]) == 1:
        names = [n for n, _ in E.adt(d.a[0])["v"][0][1]]
        vals = dict(zip(names, d.a[2]))
        out = []
        for n, t in td["v"][0][1]:
            x = build(E, st, t, vals.pop(n)) if n in vals else default_msg(E, t)
            if x is None:
                return None
            out.append(x)
        return Agg(a, 0, tuple(out)) if not vals else None
    return None


def msg(E, ty, **fields):
    td = E.types[ty]
    out = []
    for n, t in td["v"][0][1]:
        out.append(fields.pop(n) if n in fields else default_msg(E, t))
    return Agg(td["adt"], 0, tuple(out)) if not fields else None


def parse(E, st, ty, v):
    name = E.types[ty].get("adt", "").split("::")[-1]
    if v.k == "app" and v.a[0] == "header" and name == "BlobHeader":
        i, blob = v.a[1]
        kind = C(E, st, blob.a[2][0]) if blob.k == "agg" and blob.a[0] == "marks::Blob" else Str("OSMData")
        return msg(E, ty, type_=Some(kind), datasize=Some(App("data size", i)))
    if v.k == "app" and v.a[0] == "data" and name == "Blob":
        i, blob = v.a[1]
        data = C(E, st, blob.a[2][1])
        V = [x[0] for x in E.adt("marks::Data")["v"]]
        k = V[data.a[1]]
        if k == "Raw":
            return msg(E, ty, raw=Some(App("block", D(E, st, data.a[2][0]))))
        if k == "Zlib":
            return msg(E, ty, zlib_data=Some(App("zlib", App("block", D(E, st, data.a[2][0])))), raw_size=Some(App("raw size", i)))
        if k == "BadBlock":
            return msg(E, ty, raw=Some(App("broken block", i)))
        if k == "BadZlib":
            return msg(E, ty, zlib_data=Some(App("broken zlib", i)), raw_size=Some(App("raw size", i)))
        if k == "BadZlibBlock":
            return msg(E, ty, zlib_data=Some(App("zlib", App("broken block", i))), raw_size=Some(App("raw size", i)))
        return msg(E, ty, lzma_data=Some(App("lzma", i)), raw_size=Some(App("raw size", i)))
    if v.k == "app" and v.a[0] == "block" and name == "PrimitiveBlock":
        return build(E, st, ty, v.a[1][0])
    return None


def broken(E, st, v):
    """the bytes are no message"""
    if v.k == "app" and v.a[0] in ("broken block", "part of"):
        return True
    if v.k == "app" and v.a[0] == "data":
        data = C(E, st, C(E, st, v.a[1][1]).a[2][1])
        return E.adt("marks::Data")["v"][data.a[1]][0] == "BadBlob"
    return False


@rx(r"^protobuf::message::Message::parse_from_(bytes|tokio_bytes|carllerche_bytes)$")
def parse_from(E, callee, args, st, ctx, b, span):
    v = D(E, st, args[0])
    ty = E.types[E.retty]["a"][0]
    if broken(E, st, v):
        return ret(Err_(App("no message", v)), st)
    if v.k == "agg" and v.a[0] == "array" and not v.a[2] and E.types[ty].get("adt", "").split("::")[-1] in ("PrimitiveBlock", "BlobHeader"):
        # what these must have is missing
        return ret(Err_(App("no message", v)), st)
    m = parse(E, st, ty, v)
    if m is None:
        return None
    if v.k == "app" and v.a[0] == "data":
        blob = C(E, st, v.a[1][1])
        data = C(E, st, blob.a[2][1])
        if data.a[2]:
            # blocks with something in them have some length
            return [(Ok_(m), s) for t, s in E.branch(st, Eq(Len(App("block", D(E, st, data.a[2][0]))), Int(0))) if t is FALSE or t is False]
        out = [st]
        for x in subterms(m):
            if x.k == "app" and x.a[0] in ("broken block", "broken zlib"):
                out = [s2 for s in out for t, s2 in E.branch(s, Eq(Len(x), Int(0))) if t is FALSE or t is False]
        return [(Ok_(m), s) for s in out]
    return ret(Ok_(m), st)


@rx(r"^flate2::zlib::(read|bufread)::ZlibDecoder::<R>::new$", r"^std::io::cursor::Cursor::<T>::new$", r"^(core|alloc)::io::cursor::Cursor::<T>::new$")
def wrap(E, callee, args, st, ctx, b, span):
    return ret(Agg("reader of", 0, (Str("zlib" if "Zlib" in callee["path"] else ""), args[0])), st)


def through(E, st, v):
    """what a reader reads"""
    v = C(E, st, v)
    if v.k == "agg" and v.a[0] == "reader of":
        x = through(E, st, v.a[2][1])
        if x is None:
            return None
        if v.a[2][0].a[0] == "zlib":
            return x.a[1][0] if x.k == "app" and x.a[0] == "zlib" else x if x.k == "app" and x.a[0] == "broken zlib" else None
        return x
    return D(E, st, v)


@rx(r"::io::.*Read>::read_to_end$", r"^(std|alloc)::io::.*Read::read_to_end$")
def read_to_end(E, callee, args, st, ctx, b, span):
    x = through(E, st, args[0])
    if x is None:
        return None
    if x.k == "app" and x.a[0] == "broken zlib":
        return ret(Err_(ioerr(E, False)), setref(E, st, args[1], Cat(C(E, st, args[1]), App("part of", x))))
    out = []
    for t, s in E.branch(st, Eq(Len(x), Int(0))):
        # blocks with something in them have some length
        if t is FALSE or t is False:
            out.append((Ok_(Len(x)), setref(E, s, args[1], Cat(C(E, s, args[1]), x))))
    return out


@rx(r"^core::str::converts::from_utf8$", r"^alloc::string::String::from_utf8$", r"^core::str::<impl str>::from_utf8$")
def from_utf8(E, callee, args, st, ctx, b, span):
    v = D(E, st, args[0])
    if v.k == "app" and v.a[0] == "utf8":
        return ret(Ok_(v.a[1][0]), st)
    if v.k == "idx" and v.a[0].k == "app" and v.a[0].a[0] == "utf8s":
        return ret(Ok_(Idx(v.a[0].a[1][0], v.a[1])), st)
    return None


@rx(r"^<.*(osmformat|fileformat)::.* as core::clone::Clone>::clone$", r"^<protobuf::.* as core::clone::Clone>::clone$")
def clone(E, callee, args, st, ctx, b, span):
    return ret(D(E, st, args[0]), st)


clone.ours = True


@rx(r"::default_instance$")
def default_instance(E, callee, args, st, ctx, b, span):
    td = E.types[E.retty]
    if td["k"] != "ref":
        return None
    return ret(default_msg(E, td["e"]), st)


default_instance.ours = True
