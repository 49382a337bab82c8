"""What the XML parsers see: the documents (marks::Doc) the reader laws are about, as quick_xml and xml-rs show them."""
from prims import *
from prims import ours, rx, prim, ret, C, D, setref, iter_advance
from prims import SL, Some, NONE

QX = "quick_xml::reader::Reader"


def Ok_(v):
    return Agg("core::result::Result", 0, (v,))


def Err_(v):
    return Agg("core::result::Result", 1, (v,))


def variant(E, adt, name):
    t = E.adt(adt)
    if t is None:
        return None
    for i, v in enumerate(t["v"]):
        if v[0] == name:
            return i
    return None


def doc_of(E, st, r):
    """the reference to the document behind wrappers, and its events"""
    v = C(E, st, r)
    for _ in range(8):
        if v.k == "agg" and v.a[0] == "marks::Doc":
            return C(E, st, v.a[2][0])
        if v.k == "agg" and v.a[2]:
            v = C(E, st, v.a[2][0])
        else:
            return None
    return None


@rx(r"^quick_xml::reader::.*Reader<R>>?::from_reader$", r"^quick_xml::reader::Reader::<R>::from_reader$")
def qx_new(E, callee, args, st, ctx, b, span):
    return ret(Agg(QX, 0, (args[0], Int(0))), st)


@rx(r"^alloc::io::buffered::bufreader::BufReader::<R>::(new|with_capacity)$", r"^std::io::buffered::bufreader::BufReader::<R>::(new|with_capacity)$")
def buf_new(E, callee, args, st, ctx, b, span):
    return ret(Agg("bufreader", 0, (args[-1],)), st)


@rx(r"^quick_xml::reader::.*::config(_mut)?$")
def qx_config(E, callee, args, st, ctx, b, span):
    return None


def start_of(ev):
    """what we keep of a BytesStart: name and attributes"""
    return Agg("quick_xml::events::BytesStart", 0, (ev.a[2][0], ev.a[2][1]))


@rx(r"^quick_xml::reader::.*::read_event(_into)?$")
def qx_event(E, callee, args, st, ctx, b, span):
    rd = C(E, st, args[0])
    p = rd if rd.k == "phi" else rd.a[2][1] if rd.k == "agg" and rd.a[0] == QX else None
    if p is not None and p.k == "phi":
        out = []
        for l, _ in p.a[1]:
            s = E.restrict_state(st, p.a[0], {l})
            if s is not None:
                r = qx_event(E, callee, args, s, ctx, b, span)
                if r is None:
                    return None
                out.extend(r)
        return out
    if rd.k != "agg" or rd.a[0] != QX or rd.a[2][1].k != "int":
        return None
    evs = doc_of(E, st, rd.a[2][0])
    if evs is None or evs.k != "agg":
        return None
    n = rd.a[2][1].a[0]
    A = "quick_xml::events::Event"

    def mk(name, *fs):
        return Ok_(Agg(A, variant(E, A, name), fs))
    s = setref(E, st, args[0], Agg(QX, 0, (rd.a[2][0], Int(n + 1))))
    if n >= len(evs.a[2]):
        return ret(mk("Eof"), s)
    ev = D(E, st, evs.a[2][n])
    if ev.k != "agg":
        return None
    k = E.adt("marks::Ev")["v"][ev.a[1]][0]
    if k == "Broken":
        return ret(Err_(App("broken document")), s)
    if k == "Other":
        return ret(mk("Text", Sym("text")), s)
    if k == "End":
        return ret(mk("End", Agg("quick_xml::events::BytesEnd", 0, (ev.a[2][0],))), s)
    return ret(mk(k, start_of(ev)), s)


@rx(r"^quick_xml::events::Bytes(Start|End)::<'a>::(name|local_name)$", r"^quick_xml::name::QName::<'a>::(local_name|into_inner)$", r"^quick_xml::name::LocalName::<'a>::into_inner$",
    r"^<quick_xml::name::(LocalName|QName)<'a> as core::convert::AsRef<\[u8\]>>::as_ref$",
    r"^quick_xml::events::Bytes(Start|End)::<'a>::(to_owned|into_owned|borrow|to_end)$")
def qx_name(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k == "agg" and v.a[0].startswith("quick_xml::events::Bytes") and callee["path"].endswith("name"):
        v = v.a[2][0]
    return ret(v, st)


def attr_of(E, st, a):
    a = D(E, st, a)
    if a.k == "agg" and a.a[0] == "marks::At":
        k, v = a.a[2]
        if k.k == "str" and k.a[0] == "!":
            return Err_(App("unreadable attribute"))
        return Ok_(Agg("quick_xml::events::attributes::Attribute", 0, (k, v if v.k == "str" else App("raw", v))))
    return None


@rx(r"^quick_xml::events::BytesStart::<'a>::(attributes|html_attributes)$")
def qx_attrs(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k != "agg" or v.a[0] != "quick_xml::events::BytesStart":
        return None
    al = D(E, st, v.a[2][1])
    if al.k != "agg":
        return None
    its = [attr_of(E, st, a) for a in al.a[2]]
    if any(x is None for x in its):
        return None
    return ret(Agg(SL, 0, (Agg("array", 0, its), Int(0))), st)


@rx(r"^quick_xml::events::attributes::Attributes::<'a>::with_checks$")
def qx_checks(E, callee, args, st, ctx, b, span):
    return ret(args[0], st)


@rx(r"^quick_xml::events::BytesStart::<'a>::try_get_attribute$")
def qx_get(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    n = D(E, st, args[1])
    if v.k != "agg" or v.a[0] != "quick_xml::events::BytesStart" or n.k != "str":
        return None
    al = D(E, st, v.a[2][1])
    if al.k != "agg":
        return None
    for a in al.a[2]:
        x = attr_of(E, st, a)
        if x is None:
            return None
        if x.a[1] == 1:
            return ret(x, st)
        k = x.a[2][0].a[2][0]
        if k.k != "str":
            return None
        if k is n:
            return ret(Ok_(Some(x.a[2][0])), st)
    return ret(Ok_(NONE), st)


@rx(r"^<quick_xml::events::attributes::Attributes<'a> as core::iter::traits::iterator::Iterator>::next$")
def qx_next(E, callee, args, st, ctx, b, span):
    return iter_advance(E, args[0], st)


@rx(r"^quick_xml::events::attributes::Attribute::<'a>::(normalized_value|unescape_value|decode_and_unescape_value|decode_and_normalized_value|decoded_and_normalized_value)(_with)?$")
def qx_value(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    v = D(E, st, Fld(v, 0, 1))
    if v.k == "str":
        return ret(Ok_(v), st)
    if v.k != "app" or v.a[0] != "raw":
        return None
    w = v.a[1][0]
    out = []
    for t, s in E.branch(st, App("p:readable", w)):
        out.append((Ok_(w) if t else Err_(App("unreadable text", w)), s))
    return out




@ours
@prim("marks::named")
def named(E, callee, args, st, ctx, b, span):
    return ret(args[0], st)


@rx(r"^std::fs::File::open$")
def file_open(E, callee, args, st, ctx, b, span):
    v = D(E, st, args[0])
    out = []
    for t, s in E.branch(st, App("p:can_open", v)):
        out.append((Ok_(Agg("std::fs::File", 0, (v,))) if t else Err_(App("cannot open", v)), s))
    return out


@rx(r"^bzip2::read::(MultiBzDecoder|BzDecoder)::<R>::new$", r"^bzip2::bufread::(MultiBzDecoder|BzDecoder)::<R>::new$")
def bz_new(E, callee, args, st, ctx, b, span):
    return ret(Agg("bz", 0, (args[0],)), st)


@rx(r"^anyhow::__private::not$")
def any_not(E, callee, args, st, ctx, b, span):
    return ret(Not(args[0]), st)


@rx(r"^alloc::vec::Vec::<T, A>::insert$", r"^smallvec::SmallVec::<A>::insert$")
def vec_insert(E, callee, args, st, ctx, b, span):
    seq, i = C(E, st, args[0]), args[1]
    if seq.k == "agg" and seq.a[0] == "array" and i.k == "int" and 0 <= i.a[0] <= len(seq.a[2]):
        l = list(seq.a[2])
        l.insert(i.a[0], args[2])
        return ret(UNIT, setref(E, st, args[0], Agg("array", 0, l)))
    return None


FOLD = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower, "to_uppercase": str.upper,
        "to_ascii_lowercase": str.lower, "to_ascii_uppercase": str.upper}


@rx(r"^(core|alloc)::str::<impl str>::(trim|trim_start|trim_end|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)$")
def str_map(E, callee, args, st, ctx, b, span):
    n = callee["path"].split("::")[-1]
    v = D(E, st, args[0])
    if v.k == "str" and v.a[0].isascii():
        return ret(Str(FOLD[n](v.a[0])), st)
    return ret(App("p:" + n, v), st)


@rx(r"^core::str::<impl str>::(starts_with|ends_with|contains|eq_ignore_ascii_case)$", r"^core::slice::<impl \[T\]>::(starts_with|ends_with|eq_ignore_ascii_case)$", r"^core::slice::ascii::<impl \[u8\]>::eq_ignore_ascii_case$")
def str_test(E, callee, args, st, ctx, b, span):
    n = callee["path"].split("::")[-1]
    v, w = D(E, st, args[0]), D(E, st, args[1])
    if w.k == "int":
        try:
            w = Str(chr(w.a[0]))
        except ValueError:
            return None
    if v.k == "str" and w.k == "str":
        x, y = v.a[0], w.a[0]
        return ret(Bool({"starts_with": x.startswith(y), "ends_with": x.endswith(y), "contains": y in x, "eq_ignore_ascii_case": x.lower() == y.lower()}[n]), st)
    if w.k == "str":
        return ret(App("p:" + n, v, w), st)
    if w.k == "agg" and w.a[0] == "array" and n == "contains" and all(x.k == "int" for x in w.a[2]):
        # contains([c, ..]): one of the characters
        try:
            ws = [chr(x.a[0]) for x in w.a[2]]
        except ValueError:
            return None
        if v.k == "str":
            return ret(Bool(any(x in v.a[0] for x in ws)), st)
        return ret(App("p:contains_any", v, Str("".join(ws))), st)
    return None


@rx(r"^alloc::str::<impl str>::(replace|replacen|repeat)$")
def str_replace(E, callee, args, st, ctx, b, span):
    n = callee["path"].split("::")[-1]
    vs = [D(E, st, a) for a in args]
    if n == "replace" and len(vs) == 3:
        if vs[1].k == "int":
            vs[1] = Str(chr(vs[1].a[0]))
        if all(v.k == "str" for v in vs):
            return ret(Str(vs[0].a[0].replace(vs[1].a[0], vs[2].a[0])), st)
        if vs[1].k == "str":
            return ret(App("p:replace", *vs), st)
    return None


# ------------------------------------------------------------------ xml-rs
XE = "xml::reader::events::XmlEvent"
EV = "xmlrs"


def build(E, adt, vname, **fs):
    t = E.adt(adt)
    i = variant(E, adt, vname)
    if i is None:
        return None
    return Agg(adt, i, [fs.get(f[0], Sym("%s.%s" % (vname, f[0]))) for f in t["v"][i][1]])


def xname(E, n):
    return build(E, "xml::name::OwnedName", "OwnedName", local_name=n, namespace=NONE, prefix=NONE)


def xml_events(E, st, evs):
    """the document as xml-rs shows it"""
    out = [Ok_(build(E, XE, "StartDocument"))]
    for ev in evs:
        ev = D(E, st, ev)
        if ev.k != "agg" or ev.a[0] != "marks::Ev":
            return None
        k = E.adt("marks::Ev")["v"][ev.a[1]][0]
        if k == "Broken":
            out.append(Err_(App("broken document")))
            return out
        if k == "Other":
            out.append(Ok_(build(E, XE, "Comment")))
            out.append(Ok_(build(E, XE, "Characters")))
            continue
        if k in ("Start", "Empty"):
            al = D(E, st, ev.a[2][1])
            if al.k != "agg":
                return None
            ats = []
            for a in al.a[2]:
                a = D(E, st, a)
                if a.k != "agg" or a.a[0] != "marks::At":
                    return None
                ats.append(build(E, "xml::attribute::OwnedAttribute", "OwnedAttribute", name=xname(E, a.a[2][0]), value=a.a[2][1]))
            out.append(Ok_(build(E, XE, "StartElement", name=xname(E, ev.a[2][0]), attributes=Agg("array", 0, ats))))
        if k in ("End", "Empty"):
            out.append(Ok_(build(E, XE, "EndElement", name=xname(E, ev.a[2][0]))))
    out.append(Ok_(build(E, XE, "EndDocument")))
    return out


@rx(r"^xml::reader::EventReader::<R>::(new|new_with_config)$")
def xr_new(E, callee, args, st, ctx, b, span):
    evs = doc_of(E, st, args[0])
    if evs is None or evs.k != "agg":
        return None
    l = xml_events(E, st, evs.a[2])
    if l is None:
        return None
    return ret(Agg(EV, 0, (Agg("array", 0, l), Int(0))), st)


@rx(r"^<xml::reader::EventReader<R> as core::iter::traits::collect::IntoIterator>::into_iter$")
def xr_iter(E, callee, args, st, ctx, b, span):
    return ret(args[0], st)


@rx(r"^<xml::reader::Events<R> as core::iter::traits::iterator::Iterator>::next$", r"^xml::reader::EventReader::<R>::next$")
def xr_next(E, callee, args, st, ctx, b, span):
    rd = C(E, st, args[0])
    p = rd if rd.k == "phi" else rd.a[2][1] if rd.k == "agg" and rd.a[0] == EV else None
    if p is not None and p.k == "phi":
        out = []
        for l, _ in p.a[1]:
            s = E.restrict_state(st, p.a[0], {l})
            if s is not None:
                r = xr_next(E, callee, args, s, ctx, b, span)
                if r is None:
                    return None
                out.extend(r)
        return out
    if p is None or p.k != "int":
        return None
    l, n = rd.a[2][0].a[2], p.a[0]
    it = callee["path"].endswith("Iterator>::next") or (callee.get("rpath") or "").endswith("Iterator>::next") or "Iterator" in callee["path"]
    if n >= len(l):
        return ret(NONE if it else l[-1], st)
    v = l[n]
    return ret(Some(v) if it else v, setref(E, st, args[0], Agg(EV, 0, (rd.a[2][0], Int(n + 1)))))
