"""What library functions mean. A primitive is p(E, callee, args, st, ctx, b, span) -> [(value, state)]
or None (not handled)."""
import re
from term import *

EXACT = {}
RX = []


def prim(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


_cache = {}


def by_path(path):
    if path is None:
        return None
    if path in _cache:
        return _cache[path]
    f = EXACT.get(path)
    if f is None:
        for r, g in RX:
            if r.search(path):
                f = g
                break
    _cache[path] = f
    return f


def lookup(callee):
    if callee.get("model"):
        return None
    if callee.get("ours"):
        p = by_path(callee.get("rpath"))
        if p is None and callee.get("path", "").startswith("marks::") or callee.get("path", "").startswith("models::"):
            p = by_path(callee.get("path"))
        return p if p is not None and getattr(p, "ours", False) else None
    p = by_path(callee.get("rpath"))
    if p is None:
        p = by_path(callee.get("path"))
    return p


def ours(f):
    f.ours = True
    return f


# ------------------------------------------------------------------ helpers
def C(E, st, v):
    return E.content(st, v)


def D(E, st, v):
    return E.deep(st, E.content(st, v))


def setref(E, st, r, v):
    """the state with *r = v"""
    s = st.copy()
    t = E.target_of(r)
    if t[0] != "val":
        E.write(s, t, v)
    return s


def ret(v, st):
    return [(v, st)]


def is_strlike(E, t):
    td = E.types[t]
    while td["k"] == "ref":
        td = E.types[td["e"]]
    if td["k"] == "str":
        return True
    if td["k"] == "adt":
        if td["adt"] in ("alloc::string::String", "smol_str::SmolStr"):
            return True
        if td["adt"] in ("alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::boxed::Box", "alloc::borrow::Cow") and td["a"]:
            return is_strlike(E, td["a"][0])
    return False


def peel(E, t):
    td = E.types[t]
    while td["k"] == "ref":
        t = td["e"]
        td = E.types[t]
    return t


def branches(E, st, cond):
    return E.branch(st, cond)


# ------------------------------------------------------------------ transparent wrappers
@rx(r"^<(alloc|std|smallvec|smol_str|bytes)::.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?$",
    r"^<(alloc|std|smallvec|smol_str|bytes|core)::.* as core::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$",
    r"^<(alloc|std|smallvec|smol_str|bytes|core)::.* as core::borrow::Borrow(Mut)?<.*>>::borrow(_mut)?$",
    r"^<(alloc|std|core)::.* as alloc::borrow::.*>::borrow$",
    r"::as_(str|mut_str|slice|mut_slice|bytes|ref|mut|ptr)$",
    r"^core::str::<impl str>::as_(bytes|str)$",
    r"^core::convert::identity$",
    r"^smallvec::.*::as_(mut_)?slice$",
    r"^core::hint::black_box$", r"^core::hint::must_use$", r"^alloc::__export::must_use$",
    r"^alloc::vec::Vec::<.*>::(into_boxed_slice|leak)$",
    r"^core::slice::<impl \[T\]>::as_(ref|mut)$",
    r"^core::array::<impl .*>::as_(slice|ref)$",
    r"^core::str::traits::<impl core::convert::AsRef<.*> for str>::as_ref$",
    r"^core::convert::(num::)?<impl core::convert::AsRef<.*> for .*>::as_ref$",
    r"^<(str|\[T\]|alloc::string::String) as core::convert::AsRef<.*>>::as_ref$",
    r"^core::unicode::.*::as_str$",
    )
def ident(E, callee, args, st, ctx, b, span):
    if callee["path"].startswith(("core::option", "core::result", "protobuf::")):
        return None
    return ret(args[0], st)


@rx(r"^alloc::boxed::Box::<T>::(new|pin)$", r"^alloc::rcs::(arc::Arc|rc::Rc)::<T>::(new|from)$",
    r"^alloc::rcs::(arc::Arc|rc::Rc)::<T, A>::(unwrap_or_clone|into_inner)$",
    r"^<alloc::rcs::(arc::Arc|rc::Rc)<.*> as core::convert::From<.*>>::from$",
    r"^<alloc::boxed::Box<.*> as core::convert::From<.*>>::from$",
    r"^smol_str::SmolStr::(new|new_inline|new_static)$",
    r"^<smol_str::SmolStr as core::convert::From<.*>>::from$",
    r"^<alloc::string::String as core::convert::From<.*>>::from$",
    r"^<smol_str::SmolStr as core::iter::traits::collect::FromIterator<.*>>::from_iter$",
    r"^alloc::str::<impl core::convert::From<.*> for .*>::from$",
    r"^alloc::(string|vec|str|slice|boxed|rcs|borrow)::.*<impl core::convert::(From|Into)<.*> for .*>::(from|into)$",
    r"^<alloc::vec::Vec<.*> as core::convert::From<.*>>::from$",
    r"^<alloc::borrow::Cow<.*> as core::convert::From<.*>>::from$",
    r"^alloc::borrow::Cow::<'_, B>::(into_owned|to_mut)$",
    r"^alloc::(str|slice)::<impl alloc::borrow::ToOwned for .*>::to_owned$",
    r"^alloc::slice::<impl \[T\]>::(to_vec|into_vec)$",
    r"^alloc::str::<impl str>::(into_string|to_owned)$",
    r"^alloc::string::String::(into_bytes|into_boxed_str|from_utf8_unchecked)$",
    r"^smallvec::SmallVec::<A>::(from_vec|into_vec|from_slice|from_buf|from_elem)$",
    r"^<smallvec::SmallVec<A> as core::convert::From<.*>>::from$",
    r"^<T as alloc::borrow::ToOwned>::to_owned$",
    r"^alloc::slice::hack::into_vec$",
    r"^core::clone::impls::<impl core::clone::Clone for .*>::clone$",
    r"^<(alloc|smol_str|smallvec|std|bytes|hashbrown|xml|protobuf|chrono)::.* as core::clone::Clone>::clone$",
    r"^<(core)::(cell|time|num)::.* as core::clone::Clone>::clone$",
    r"^core::array::.*::clone$",
    r"^<chrono::.* as core::clone::Clone>::clone$",
    )
def owned(E, callee, args, st, ctx, b, span):
    p = callee.get("rpath") or callee["path"]
    if "EnumOrUnknown" in p:
        pass
    return ret(D(E, st, args[0]) if not movable(E, st, args[0]) else args[0], st)


@rx(r"^alloc::boxed::box_assume_init_into_vec_unsafe$")
def assume_init(E, callee, args, st, ctx, b, span):
    # vec![..]: the elements were written into a fresh box (a union in a wrapper)
    v = D(E, st, args[0])
    for _ in range(4):
        if v.k == "with" and v.a[1][0] == "f":
            v = v.a[2]
        else:
            break
    return ret(v, st)


def movable(E, st, v):
    """a value which is no reference to memory itself (its inner references stay as they are)"""
    return v.k in ("agg", "dyn") and not E.content(st, v) is not v


@prim("core::mem::replace")
def mem_replace(E, callee, args, st, ctx, b, span):
    old = C(E, st, args[0])
    return ret(old, setref(E, st, args[0], args[1]))


def default_of(E, ty):
    td = E.types[ty]
    if td["k"] == "adt":
        a = td["adt"]
        if a == "core::option::Option":
            return NONE
        if a == "alloc::string::String" or a == "smol_str::SmolStr":
            return Str("")
        if a in ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::collections::vec_deque::VecDeque"):
            return EMPTYSEQ
        if "HashMap" in a or "BTreeMap" in a or "HashSet" in a:
            return EMPTYSEQ
    if td["k"] == "bool":
        return FALSE
    if td["k"] in ("int", "uint"):
        return Int(0)
    if td["k"] == "ref" or td["k"] == "str":
        return default_of(E, td["e"]) if td["k"] == "ref" else Str("")
    if td["k"] == "slice":
        return EMPTYSEQ
    return None


@prim("core::mem::take")
def mem_take(E, callee, args, st, ctx, b, span):
    d = default_of(E, callee["a"][0])
    if d is None:
        return None
    old = C(E, st, args[0])
    return ret(old, setref(E, st, args[0], d))


@prim("core::mem::swap")
def mem_swap(E, callee, args, st, ctx, b, span):
    x, y = C(E, st, args[0]), C(E, st, args[1])
    return ret(UNIT, setref(E, setref(E, st, args[0], y), args[1], x))


@prim("core::mem::drop", "core::mem::forget")
def mem_drop(E, callee, args, st, ctx, b, span):
    ty = E.types[callee["a"][0]]
    d = ty.get("drop")
    if d is not None and "body" in E.inst[d] and callee["path"].endswith("drop"):
        root = ("T", ctx, b)
        s = st.copy()
        s.mem[root] = args[0]
        c = E.ctx("call", ctx, b, d)
        return [(UNIT, x) for _, x in E.run_inst(d, [Ref(root)], s, c)]
    return ret(UNIT, st)


@rx(r"^<.* as core::default::Default>::default$", r"^core::default::Default::default$", r"::<impl core::default::Default for .*>::default$")
def default(E, callee, args, st, ctx, b, span):
    if E.retty is None:
        return None
    d = default_of(E, E.retty)
    return ret(d, st) if d is not None else None


# ------------------------------------------------------------------ sequences
@rx(r"^alloc::vec::Vec::<T>::(new|with_capacity)$", r"^smallvec::SmallVec::<A>::(new|with_capacity)$",
    r"^alloc::collections::vec_deque::VecDeque::<T>::(new|with_capacity)$",
    r"^alloc::string::String::with_capacity_$", r"^std::collections::hash::map::HashMap::<K, V>::(new|with_capacity)$",
    r"^std::collections::.*::(new|with_capacity)$", r"^serde_json::map::Map::.*::(new|with_capacity)$", r"^alloc::collections::btree::map::BTreeMap::.*::new$")
def seq_new(E, callee, args, st, ctx, b, span):
    return ret(EMPTYSEQ, st)


@rx(r"^alloc::string::String::(new|with_capacity)$")
def str_new(E, callee, args, st, ctx, b, span):
    return ret(Str(""), st)


@rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::collections::vec_deque::VecDeque::<T, A>|alloc::string::String)::(reserve|reserve_exact|shrink_to_fit|grow)$")
def noop(E, callee, args, st, ctx, b, span):
    return ret(UNIT, st)


def push_value(E, callee, args, st, ctx, b, span):
    E.record("push", ctx, b, st, value=args[1], to=args[0], seq=C(E, st, args[0]), path=callee.get("path"), span=span)
    s = setref(E, st, args[0], Snoc(C(E, st, args[0]), args[1]))
    return ret(UNIT, s)


rx(r"^alloc::vec::Vec::<T, A>::push$", r"^smallvec::SmallVec::<A>::push$",
   r"^alloc::collections::vec_deque::VecDeque::<T, A>::push_back$")(push_value)


@ours
@prim("models::push")
def model_push(E, callee, args, st, ctx, b, span):
    cty = E.types[callee["a"][0]]
    if cty["k"] == "adt" and cty["adt"] == "core::result::Result":
        return None
    if is_strlike(E, callee["a"][0]):
        x = args[1]
        if E.types[peel(E, callee["a"][1])]["k"] == "char":
            x = App("chr", C(E, st, x))
        else:
            x = D(E, st, x)
        return ret(UNIT, setref(E, st, args[0], Cat(C(E, st, args[0]), x)))
    if cty["k"] == "tuple" and not cty["a"]:
        return ret(UNIT, st)
    return push_value(E, callee, args, st, ctx, b, span)


@ours
@prim("models::new_collection")
def model_new(E, callee, args, st, ctx, b, span):
    if is_strlike(E, callee["a"][0]):
        return ret(Str(""), st)
    return ret(EMPTYSEQ, st)


@rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::collections::vec_deque::VecDeque::<T, A>|alloc::string::String|std::collections::hash::map::HashMap::<K, V, S>)::len$",
    r"^core::slice::<impl \[T\]>::len$", r"^core::str::<impl str>::len$", r"^smol_str::SmolStr::len$",
    r"^std::collections::.*::len$", r"^smallvec::.*::len$", r"^serde_json::map::Map::.*::len$", r"^alloc::collections::btree::map::BTreeMap::.*::len$")
def seq_len(E, callee, args, st, ctx, b, span):
    return ret(Len(C(E, st, args[0])), st)


@rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::collections::vec_deque::VecDeque::<T, A>|alloc::string::String|std::collections::hash::map::HashMap::<K, V, S>)::is_empty$",
    r"^core::slice::<impl \[T\]>::is_empty$", r"^core::str::<impl str>::is_empty$", r"^smol_str::SmolStr::is_empty$",
    r"^std::collections::.*::is_empty$", r"^serde_json::map::Map::.*::is_empty$", r"^alloc::collections::btree::map::BTreeMap::.*::is_empty$")
def seq_is_empty(E, callee, args, st, ctx, b, span):
    return ret(Eq(Len(C(E, st, args[0])), Int(0)), st)


@rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::collections::vec_deque::VecDeque::<T, A>|alloc::string::String|std::collections::hash::map::HashMap::<K, V, S.*>|serde_json::map::Map::.*)::clear$")
def seq_clear(E, callee, args, st, ctx, b, span):
    E.record("clear", ctx, b, st, to=args[0], span=span)
    e = Str("") if "String" in callee["path"] else EMPTYSEQ
    return ret(UNIT, setref(E, st, args[0], e))


@rx(r"^std::collections::hash::map::HashMap::<K, V, S.*>::insert$", r"^serde_json::map::Map::.*::insert$", r"^alloc::collections::btree::map::BTreeMap::.*::insert$")
def map_insert(E, callee, args, st, ctx, b, span):
    """a map is the sequence of its pairs"""
    m, k, v = C(E, st, args[0]), D(E, st, args[1]), args[2]
    ok = [True]

    def put(m):
        """(old value, new map)"""
        if m.k == "phi":
            rs = [(l, put(x)) for l, x in m.a[1]]
            return Phi(m.a[0], [(l, r[0]) for l, r in rs]), Phi(m.a[0], [(l, r[1]) for l, r in rs])
        if m.k == "agg" and m.a[0] == "array" and all(x.k == "agg" for x in m.a[2]):
            q = [Eq(x.a[2][0], k) for x in m.a[2]]
            if all(x.k == "bool" for x in q):
                hit = [i for i, x in enumerate(q) if x is TRUE]
                items = list(m.a[2])
                if hit:
                    old = Some(items[hit[0]].a[2][1])
                    items[hit[0]] = Agg("tuple", 0, (k, v))
                else:
                    old = NONE
                    items.append(Agg("tuple", 0, (k, v)))
                return old, Agg("array", 0, items)
        ok[0] = False
        return TOP, TOP
    old, new = put(m)
    if not ok[0]:
        return None
    return ret(old, setref(E, st, args[0], new))


@rx(r"^std::collections::hash::map::HashMap::<K, V, S.*>::contains_key$", r"^serde_json::map::Map::.*::contains_key$", r"^alloc::collections::btree::map::BTreeMap::.*::contains_key$")
def map_contains(E, callee, args, st, ctx, b, span):
    m, k = C(E, st, args[0]), D(E, st, args[1])
    if m.k == "agg" and m.a[0] == "array" and all(x.k == "agg" for x in m.a[2]):
        r = FALSE
        for x in m.a[2]:
            r = Or(r, Eq(x.a[2][0], k))
        return ret(r, st)
    import differ
    if differ.path(m):
        return ret(App("p:contains_key", m, k), st)
    return None


@rx(r"^std::collections::hash::map::HashMap::<K, V, S.*>::get$", r"^serde_json::map::Map::.*::get$", r"^alloc::collections::btree::map::BTreeMap::.*::get$")
def map_get(E, callee, args, st, ctx, b, span):
    m, k = C(E, st, args[0]), D(E, st, args[1])
    if m.k == "agg" and m.a[0] == "array" and all(x.k == "agg" for x in m.a[2]):
        out = []
        for x in m.a[2]:
            rest = []
            for t, s in E.branch(st, Eq(x.a[2][0], k)):
                if t:
                    out.append((Some(x.a[2][1]), s))
                else:
                    rest.append(s)
            if not rest:
                return out
            st = rest[0]
        return out + [(NONE, st)]
    return None


@rx(r"^(alloc::vec::Vec::<T, A>|alloc::string::String|smallvec::SmallVec::<A>)::truncate$")
def seq_truncate(E, callee, args, st, ctx, b, span):
    n = args[1]
    if n.k == "int" and n.a[0] == 0:
        return seq_clear(E, callee, args, st, ctx, b, span)
    return None


@rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>)::(extend_from_slice|append)$",)
def seq_extend_slice(E, callee, args, st, ctx, b, span):
    src = D(E, st, args[1])
    s = setref(E, st, args[0], seqcat(C(E, st, args[0]), src))
    if callee["path"].endswith("append"):
        s = setref(E, s, args[1], EMPTYSEQ)
    return ret(UNIT, s)


def seqcat(a, b):
    if is_empty(b):
        return a
    if is_empty(a):
        return b
    if b.k == "agg" and b.a[0] == "array":
        for x in b.a[2]:
            a = Snoc(a, x)
        return a
    if b.k == "comp" and is_empty(b.a[1]):
        return Comp(b.a[0], a, b.a[2], b.a[3])
    return Snoc(a, T("spread", b))


def ref_elem(E, st, r, i, mutable):
    """a reference to element i of the sequence r refers to"""
    if r.k == "ref" and mutable:
        return Ref(r.a[0], r.a[1] + (("i", strip_cast(i)),))
    return Idx(C(E, st, r), i)


@rx(r"^core::slice::<impl \[T\]>::(first|last|get|first_mut|last_mut|get_mut)$", r"^core::str::<impl str>::get_$",
    r"^alloc::collections::vec_deque::VecDeque::<T, A>::(get|front|back|get_mut)$", r"^smallvec::.*::(first|last|get)$")
def seq_get(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    seq = C(E, st, args[0])
    mut = name.endswith("_mut")
    name = name.replace("_mut", "")
    if name in ("first", "front"):
        i = Int(0)
    elif name in ("last", "back"):
        i = Add(Len(seq), Int(-1))
    else:
        i = args[1]
        if len(callee.get("a", [])) > 1 and E.types[callee["a"][1]]["k"] not in ("uint",):
            return None
        if i.k == "agg":
            return None
    out = []
    c = Not(Eq(Len(seq), Int(0))) if name in ("last", "back") else Lt(i, Len(seq))
    for t, s in E.branch(st, c):
        out.append((Some(ref_elem(E, s, args[0], i, mut)) if t else NONE, s))
    return out


def bounds(E, ctx, b, st, span, ok, what):
    """the call panics unless ok holds"""
    s = E.assume_is(st, ok, FALSE) if ok is not TRUE else None
    if s is not None:
        E.record("bounds", ctx, b, s, span=span, callee=what)


@rx(r"^core::slice::index::<impl core::ops::index::Index(Mut)?<.*> for \[T\]>::index(_mut)?$",
    r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$",
    r"^<smallvec::SmallVec<A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$",
    r"^<alloc::collections::vec_deque::VecDeque<T, A> as core::ops::index::Index(Mut)?<usize>>::index(_mut)?$",
    r"^core::str::traits::<impl core::ops::index::Index<I> for str>::index$",
    r"^<alloc::string::String as core::ops::index::Index<I>>::index$")
def seq_index(E, callee, args, st, ctx, b, span):
    mut = callee["path"].endswith("_mut") or callee["path"].endswith("IndexMut::index_mut")
    i = args[1]
    seq = C(E, st, args[0])
    if i.k == "agg" and i.a[0].endswith(("RangeFrom", "::Range", "::RangeTo")):
        for x in i.a[2]:
            bounds(E, ctx, b, st, span, Le(x, Len(seq)), "index out of bounds")
            if re.search(r" for str>|string::String as", callee.get("rpath") or callee["path"]) and not (x.k == "int" and x.a[0] == 0):
                bounds(E, ctx, b, st, span, App("p:is_char_boundary", seq, x), "not a character boundary")
    if i.k == "agg" and i.a[0].endswith("RangeFrom"):
        return ret(Sub(seq, i.a[2][0]), st)
    if i.k == "agg" and i.a[0].endswith("RangeFull"):
        return ret(args[0], st)
    if i.k == "agg" and i.a[0].endswith("::Range"):
        return ret(App("slice", seq, i.a[2][0], i.a[2][1]), st)
    if i.k == "agg" and i.a[0].endswith("::RangeTo"):
        return ret(App("slice", seq, Int(0), i.a[2][0]), st)
    if i.k == "agg":
        return None
    E.record("index", ctx, b, st, seq=seq, i=i, span=span)
    bounds(E, ctx, b, st, span, Lt(i, Len(seq)), "index out of bounds")
    s = E.assume_is(st, Lt(i, Len(seq)), TRUE)
    if s is None:
        return []
    return ret(ref_elem(E, s, args[0], i, mut), s)


@rx(r"^alloc::vec::Vec::<T, A>::(swap_remove|remove)$", r"^smallvec::SmallVec::<A>::(swap_remove|remove)$")
def seq_remove(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    seq = C(E, st, args[0])
    i = args[1]
    E.record("remove", ctx, b, st, seq=seq, i=i, to=args[0], span=span)
    bounds(E, ctx, b, st, span, Lt(i, Len(seq)), "index out of bounds")
    if seq.k == "agg" and i.k == "int" and 0 <= i.a[0] < len(seq.a[2]):
        l = list(seq.a[2])
        if name == "swap_remove":
            x = l[i.a[0]]
            l[i.a[0]] = l[-1]
            l.pop()
        else:
            x = l.pop(i.a[0])
        return ret(x, setref(E, st, args[0], Agg("array", 0, l)))
    s = setref(E, st, args[0], App(name, seq, i))
    return ret(Idx(seq, i), s)


@rx(r"^alloc::vec::Vec::<T, A>::pop$", r"^alloc::collections::vec_deque::VecDeque::<T, A>::pop_(front|back)$")
def seq_pop(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    seq = C(E, st, args[0])
    out = []
    for t, s in E.branch(st, Eq(Len(seq), Int(0))):
        if t:
            out.append((NONE, s))
        elif name == "pop_front":
            E.record("pop", ctx, b, st, seq=seq, to=args[0], end="front", span=span)
            if seq.k == "agg" and seq.a[2]:
                out.append((Some(seq.a[2][0]), setref(E, s, args[0], Agg("array", 0, seq.a[2][1:]))))
                continue
            out.append((Some(Idx(seq, Int(0))), setref(E, s, args[0], Sub(seq, Int(1)))))
        else:
            E.record("pop", ctx, b, st, seq=seq, to=args[0], end="back", span=span)
            if seq.k == "agg" and seq.a[2]:
                out.append((Some(seq.a[2][-1]), setref(E, s, args[0], Agg("array", 0, seq.a[2][:-1]))))
                continue
            out.append((Some(Idx(seq, Add(Len(seq), Int(-1)))), setref(E, s, args[0], App("but_last", seq))))
    return out


# ------------------------------------------------------------------ iterators
SL = "sliceiter"     # (sequence, position)
SM = "slicemut"      # (reference to the sequence, position)


@rx(r"^core::slice::<impl \[T\]>::iter$", r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a \[T\]>::into_iter$",
    r"^<(alloc::vec::Vec<T, A>|smallvec::SmallVec<A>|&'a alloc::vec::Vec<T, A>|&'a smallvec::SmallVec<A>|alloc::collections::vec_deque::VecDeque<T, A>|&'a alloc::collections::vec_deque::VecDeque<T, A>|&'a std::collections::hash::map::HashMap<K, V, S.*>|std::collections::hash::map::HashMap<K, V, S.*>) as core::iter::traits::collect::IntoIterator>::into_iter$",
    r"^alloc::collections::vec_deque::VecDeque::<T, A>::iter$", r"^smallvec::SmallVec::<A>::(iter|drain_)$",
    r"^std::collections::hash::map::HashMap::<.*>::(iter|drain_)$",
    r"^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$",
    r"^core::array::<impl core::iter::traits::collect::IntoIterator for &'a \[T; N\]>::into_iter$",
    r"^core::array::iter::.*::into_iter$",
    r"^<alloc::boxed::Box<\[I\], A> as core::iter::traits::collect::IntoIterator>::into_iter$",
    )
def seq_iter(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k == "agg" and v.a[0] in (SL, SM):
        return ret(v, st)
    return ret(Agg(SL, 0, (v, Int(0))), st)


@rx(r"^core::slice::<impl \[T\]>::iter_mut$", r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut \[T\]>::into_iter$",
    r"^<&'a mut (alloc::vec::Vec<T, A>|smallvec::SmallVec<A>) as core::iter::traits::collect::IntoIterator>::into_iter$")
def seq_iter_mut(E, callee, args, st, ctx, b, span):
    return ret(Agg(SM, 0, (args[0], Int(0))), st)


@rx(r"^alloc::vec::Vec::<T, A>::drain$", r"^smallvec::SmallVec::<A>::drain$", r"^std::collections::hash::map::HashMap::<.*>::drain$",
    r"^alloc::collections::vec_deque::VecDeque::<T, A>::drain$")
def seq_drain(E, callee, args, st, ctx, b, span):
    if len(args) > 1 and not (args[1].k == "agg" and args[1].a[0].endswith("RangeFull")):
        return None
    v = C(E, st, args[0])
    return ret(Agg(SL, 0, (v, Int(0))), setref(E, st, args[0], EMPTYSEQ))


@rx(r"^core::str::<impl str>::(chars|bytes|char_indices)$")
def str_chars(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    v = C(E, st, args[0])
    if name == "bytes":
        return ret(Agg(SL, 0, (v, Int(0))), st)
    if name == "char_indices":
        return None
    if v.k == "str":
        return ret(Agg(SL, 0, (Agg("array", 0, [Int(ord(c)) for c in v.a[0]]), Int(0))), st)
    E.__dict__.setdefault("scanned", set()).add(text_key(v))
    return ret(Agg(SL, 0, (App("chars", v), Int(0))), st)


def text_key(t):
    """which text this is, whichever element of its list"""
    return re.sub(r"\[[^\[\]]*\]", "[]", fmt(t)[:2000])


def iter_advance(E, r, st):
    """next() of a slice iterator behind the reference r"""
    it = C(E, st, r)
    if it.k == "phi":
        out = []
        for l, _ in it.a[1]:
            s = E.restrict_state(st, it.a[0], {l})
            if s is not None:
                x = iter_advance(E, r, s)
                if x is None:
                    return None
                out.extend(x)
        return out
    if it.k != "agg" or it.a[0] not in (SL, SM):
        return None
    base, pos = it.a[2][0], it.a[2][1]
    seq = C(E, st, base)
    if Len(seq).k != "int":
        E.unbounded = True
    out = []
    for t, s in E.branch(st, Lt(pos, Len(seq))):
        if t:
            if it.a[0] == SM:
                v = ref_elem(E, s, base, pos, True)
            else:
                v = Idx(seq, pos)
            out.append((Some(v), setref(E, s, r, Agg(it.a[0], 0, (base, Add(pos, Int(1)))))))
        else:
            out.append((NONE, s))
    return out


ITERTYS = r"(core::slice::iter::Iter(Mut)?<.*>|alloc::vec::into_iter::IntoIter<.*>|alloc::collections::vec_deque::.*Iter(Mut)?<.*>|smallvec::(IntoIter|Drain)<.*>|core::str::iter::(Chars|Bytes)<.*>|core::array::iter::IntoIter<.*>|std::collections::hash::map::(Iter|IntoIter|Drain)<.*>|alloc::vec::drain::Drain<.*>|alloc::vec::IntoIter<.*>)"


@rx(r"^<" + ITERTYS + r" as core::iter::traits::iterator::Iterator>::next$")
def slice_next(E, callee, args, st, ctx, b, span):
    return iter_advance(E, args[0], st)


@rx(r"^<" + ITERTYS + r" as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
def slice_next_back(E, callee, args, st, ctx, b, span):
    r = args[0]
    it = C(E, st, r)
    if it.k == "phi":
        out = []
        for l, _ in it.a[1]:
            s = E.restrict_state(st, it.a[0], {l})
            if s is not None:
                x = slice_next_back(E, callee, args, s, ctx, b, span)
                if x is None:
                    return None
                out.extend(x)
        return out
    if it.k != "agg" or it.a[0] != SL:
        return None
    seq, pos = C(E, st, it.a[2][0]), it.a[2][1]
    if Len(seq).k != "int":
        E.unbounded = True
    out = []
    for t, s in E.branch(st, Lt(pos, Len(seq))):
        if not t:
            out.append((NONE, s))
        elif seq.k == "agg" and seq.a[2]:
            out.append((Some(seq.a[2][-1]), setref(E, s, r, Agg(SL, 0, (Agg("array", 0, seq.a[2][:-1]), pos)))))
        else:
            out.append((Some(Idx(seq, Add(Len(seq), Int(-1)))), setref(E, s, r, Agg(SL, 0, (App("but_last", seq), pos)))))
    return out


@rx(r"^<" + ITERTYS + r" as core::iter::traits::exact_size::ExactSizeIterator>::(len|is_empty)$",
    r"^core::iter::traits::exact_size::ExactSizeIterator::(len|is_empty)$")
def slice_len(E, callee, args, st, ctx, b, span):
    it = C(E, st, args[0])
    n = None

    def ln(it):
        it = C(E, st, it)
        if it.k == "phi":
            xs = [(l, ln(x)) for l, x in it.a[1]]
            return None if any(x is None for _, x in xs) else Phi(it.a[0], xs)
        if it.k == "agg" and it.a[0] in (SL, SM):
            return Add(Len(C(E, st, it.a[2][0])), Neg(it.a[2][1]))
        if it.k == "agg" and it.a[0] in ("core::iter::adapters::map::Map", "core::iter::adapters::enumerate::Enumerate", "core::iter::adapters::cloned::Cloned", "core::iter::adapters::copied::Copied"):
            return ln(it.a[2][0])
        if it.k == "dyn":
            return ln(it.a[2])
        if it.k == "agg" and it.a[0].endswith("sources::empty::Empty"):
            return Int(0)
        if it.k == "agg" and it.a[0] == "zip":
            x, y = ln(it.a[2][0]), ln(it.a[2][1])
            return None if x is None or y is None else (x if x is y else App("min", *sorted((x, y), key=lambda z: z.id)))
        return None
    n = ln(it)
    if n is None:
        return None
    if callee["path"].endswith("is_empty"):
        n = Eq(n, Int(0))
    return ret(n, st)


def next_of(E, ty, r, st, ctx, b, span):
    """next() of an iterator of type ty behind the reference r"""
    v = C(E, st, r)
    x = iter_advance(E, r, st)
    if x is not None:
        return x
    t = E.types[ty]
    while t["k"] == "ref":
        ty = t["e"]
        t = E.types[ty]
    if t["k"] == "adt" and t["adt"].endswith("::zip::Zip"):
        return zip_next(E, {"a": [ty]}, [r], st, ctx, b, span)
    i = E.iter_next.get(ty)
    if i is not None and "body" in E.inst[i]:
        c = E.ctx("call", ctx, b, i)
        return E.run_inst(i, [r], st, c)
    if v.k == "dyn":
        return E.virtual({"path": "core::iter::traits::iterator::Iterator::next", "name": "next"}, [r], st, ctx, b, span)
    return None


@prim("core::iter::traits::iterator::Iterator::zip", "core::iter::adapters::zip::zip")
def zip_new(E, callee, args, st, ctx, b, span):
    bty = E.types[callee["a"][1]]
    y = args[1]
    # the other side: IntoIterator
    if bty["k"] == "ref" or (bty["k"] == "adt" and bty["adt"] in ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::collections::vec_deque::VecDeque")):
        y = Agg(SL, 0, (C(E, st, y), Int(0)))
    return ret(Agg("zip", 0, (args[0], y)), st)


@rx(r"^<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::next$")
def zip_next(E, callee, args, st, ctx, b, span):
    zt = E.types[peel(E, callee["a"][0])]
    r = args[0]
    if r.k != "ref":
        return None
    r0 = Ref(r.a[0], r.a[1] + (("f", 0, 0),))
    r1 = Ref(r.a[0], r.a[1] + (("f", 0, 1),))
    c = E.ctx("zip", ctx, b)
    xs = next_of(E, zt["a"][0], r0, st, E.ctx("zip0", c), b, span)
    if xs is None:
        return None
    out = []
    for i, (x, s) in enumerate(xs):
        for some, s2 in E.branch(s, Eq(Discr(E.content(s, x)), Int(1))):
            if not some:
                out.append((NONE, s2))
                continue
            x2 = refresh(E, s2, x)
            ys = next_of(E, zt["a"][1], r1, s2, E.ctx("zip1", c, i), b, span)
            if ys is None:
                return None
            for y, s3 in ys:
                for some2, s4 in E.branch(s3, Eq(Discr(E.content(s3, y)), Int(1))):
                    if some2:
                        out.append((Some(Agg("tuple", 0, (Fld(refresh(E, s4, x2), 1, 0), Fld(refresh(E, s4, y), 1, 0)))), s4))
                    else:
                        out.append((NONE, s4))
    return out


def refresh(E, st, t):
    """t restricted to the merge edges which are still possible in st: only constants matter here"""
    return t


@rx(r"^core::iter::sources::empty::empty$")
def empty_iter(E, callee, args, st, ctx, b, span):
    return ret(Agg(SL, 0, (EMPTYSEQ, Int(0))), st)


@rx(r"^<core::iter::sources::empty::Empty<T> as core::iter::traits::iterator::Iterator>::next$")
def empty_next(E, callee, args, st, ctx, b, span):
    return ret(NONE, st)


@rx(r"^alloc::boxed::iter::<impl core::iter::traits::iterator::Iterator for alloc::boxed::Box<I, A>>::(next|size_hint)$")
def box_next(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k in ("dyn", "phi"):
        return E.virtual({"path": "core::iter::traits::iterator::Iterator::next", "name": callee["path"].split("::")[-1]}, [args[0]], st, ctx, b, span)
    return iter_advance(E, args[0], st)


@rx(r"^alloc::boxed::iter::<impl core::iter::traits::exact_size::ExactSizeIterator for .*>::len$")
def box_len(E, callee, args, st, ctx, b, span):
    return slice_len(E, callee, args, st, ctx, b, span)


@rx(r"^<(alloc::vec::Vec<T, A>|smallvec::SmallVec<A>|alloc::collections::vec_deque::VecDeque<T, A>) as core::iter::traits::collect::Extend<.*>>::extend$",
    r"^<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator_")
def seq_extend(E, callee, args, st, ctx, b, span):
    return None


# ------------------------------------------------------------------ strings and comparisons
@rx(r"^core::str::traits::<impl core::cmp::PartialEq for str>::eq$", r"^<alloc::string::String as core::cmp::PartialEq.*>::eq$",
    r"^alloc::string::<impl core::cmp::PartialEq<.*> for .*>::eq$", r"^<smol_str::SmolStr as core::cmp::PartialEq.*>::eq$",
    r"^smol_str::<impl core::cmp::PartialEq<.*> for .*>::eq$",
    r"^core::slice::cmp::<impl core::cmp::PartialEq<\[U\]> for \[T\]>::eq$", r"^core::array::equality::<impl core::cmp::PartialEq<.*> for .*>::eq$",
    r"^alloc::vec::partial_eq::<impl core::cmp::PartialEq<.*> for .*>::eq$", r"^alloc::borrow::.*PartialEq.*::eq$",
    r"^<alloc::rcs::(arc::Arc|rc::Rc)<T, A> as core::cmp::PartialEq>::eq$",
    r"^core::str::<impl str>::eq_$", r"^<alloc::borrow::Cow<.*> as core::cmp::PartialEq<.*>>::eq$",
    r"^<quick_xml::name::.* as core::cmp::PartialEq.*>::eq$", r"^core::(slice|str)::.*PartialEq.*>::eq$")
def str_eq(E, callee, args, st, ctx, b, span):
    x, y = D(E, st, args[0]), D(E, st, args[1])
    return ret(Eq(x, y), st)


@rx(r"^(.*)PartialEq(.*)>::ne$")
def str_ne(E, callee, args, st, ctx, b, span):
    p = (callee.get("rpath") or callee["path"])[:-2] + "eq"
    f = by_path(p)
    if f is None:
        return None
    r = f(E, dict(callee, path=p, rpath=p), args, st, ctx, b, span)
    return None if r is None else [(Not(v), s) for v, s in r]


@rx(r"^core::(cmp::impls|clone::impls|.*)::<impl core::cmp::PartialEq for (bool|char|[iu]\d+|[iu]size|f\d+)>::eq$")
def prim_eq(E, callee, args, st, ctx, b, span):
    return ret(Eq(C(E, st, args[0]), C(E, st, args[1])), st)


# ------------------------------------------------------------------ numbers
@rx(r"^core::num::<impl (u|i)(size|\d+)>::(unchecked|wrapping)_(add|sub|mul)$", r"^core::intrinsics::(unchecked|wrapping)_(add|sub|mul)$")
def num_op(E, callee, args, st, ctx, b, span):
    n = callee["path"].split("_")[-1]
    x, y = args
    return ret(Add(x, y) if n == "add" else SubI(x, y) if n == "sub" else Mul(x, y), st)


@rx(r"^core::convert::num::<impl core::convert::From<[iu]\d+> for [iu](\d+|size)>::from$", r"^core::convert::num::<impl core::convert::From<bool> for .*>::from$")
def num_from(E, callee, args, st, ctx, b, span):
    return ret(args[0], st)


@rx(r"^core::cmp::impls::<impl core::cmp::Ord for ([iu]\d+|[iu]size)>::(max|min|clamp)$", r"^core::cmp::Ord::(max|min|clamp)$")
def num_max(E, callee, args, st, ctx, b, span):
    """by cases"""
    n = (callee.get("rpath") or callee["path"]).split("::")[-1]
    if "impls" not in (callee.get("rpath") or callee["path"]) and not all(E.types[t]["k"] in ("int", "uint") for t in callee["a"][:1]):
        return None
    def pick(x, y, n, s):
        out = []
        for t, s2 in E.branch(s, Lt(y, x)):
            out.append((x if bool(t) == (n == "max") else y, s2))
        return out
    x = D(E, st, args[0])
    if n != "clamp":
        return pick(x, D(E, st, args[1]), n, st)
    return [r for v, s in pick(x, D(E, st, args[1]), "max", st) for r in pick(v, D(E, s, args[2]), "min", s)]


def three_way(E, st, name, a, b):
    """-> outcomes of comparing a with b"""
    O = "core::cmp::Ordering"
    lt = (Lt(a, b), Lt(b, a)) if name == "lt" else (Slt(a, b), Slt(b, a))
    out = []
    for c, v in ((lt[0], 0), (Eq(a, b), 1), (lt[1], 2)):
        s = E.assume_is(st, c, TRUE)
        if s is not None:
            out.append((Agg(O, v, ()), s))
    return out


@rx(r"^core::cmp::impls::<impl core::cmp::(Ord|PartialOrd) for (bool|char|[iu]\d+|[iu]size)>::(cmp|partial_cmp)$",
    r"^core::str::traits::<impl core::cmp::(Ord|PartialOrd) for str>::(cmp|partial_cmp)$",
    r"^<alloc::string::String as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$",
    r"^<smol_str::SmolStr as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$",
    r"^core::intrinsics::three_way_compare$")
def ord_cmp(E, callee, args, st, ctx, b, span):
    p = callee.get("rpath") or callee["path"]
    r = three_way(E, st, "slt" if "str" in p.lower() and "intrinsics" not in p else "lt", D(E, st, args[0]), D(E, st, args[1]))
    if p.endswith("partial_cmp"):
        r = [(Some(v), s) for v, s in r]
    return r


@rx(r"^core::cmp::impls::<impl core::cmp::PartialOrd for ([iu]\d+|[iu]size)>::(lt|le|gt|ge)$")
def ord_op(E, callee, args, st, ctx, b, span):
    x, y = D(E, st, args[0]), D(E, st, args[1])
    n = (callee.get("rpath") or callee["path"]).split("::")[-1]
    return ret({"lt": lambda: Lt(x, y), "le": lambda: Le(x, y), "gt": lambda: Lt(y, x), "ge": lambda: Le(y, x)}[n](), st)


PURE = [r"^chrono::.*(timestamp|timestamp_millis|parse_from_rfc3339|to_rfc3339_opts|to_rfc3339|from_timestamp|from_timestamp_millis|timestamp_opt|timestamp_millis_opt)$",
        r"^(core|std)::(f32|f64|num::f64|num::f32)::.*<impl f(32|64)>::(round|floor|ceil|trunc|abs|round_ties_even|powi|sqrt|mul_add|signum)$",
        r"^core::num::<impl .*>::(abs|signum|pow|abs_diff|count_ones|rem_euclid|div_euclid)$",
        r"^std::num::f(32|64)::<impl f(32|64)>::.*$",
        ]


@rx(r"^(core|std)::.*<impl f(32|64)>::is_(nan|finite|infinite)$")
def float_class(E, callee, args, st, ctx, b, span):
    x = D(E, st, args[0])
    n = (callee.get("rpath") or callee["path"]).split("::")[-1]
    if n == "is_nan":
        return ret(Not(App("feq", x, x)), st)
    M = 1.7976931348623157e308
    fin = And(App("fle", Float(-M), x), App("fle", x, Float(M)))
    if n == "is_finite":
        return ret(fin, st)
    return ret(And(App("feq", x, x), Not(fin)), st)


@rx(r"^core::num::.*<impl core::str::traits::FromStr for .*>::from_str$", r"^<(bool|char) as core::str::traits::FromStr>::from_str$")
def from_str(E, callee, args, st, ctx, b, span):
    p = callee.get("rpath") or callee["path"]
    m = re.search(r"FromStr for ([a-z0-9]+)>", p) or re.search(r"^<(\w+) as", p)
    return ret(App("p:parse:" + m.group(1), D(E, st, args[0])), st)


@rx(r"^chrono::datetime::DateTime::<Tz>::(naive_local|naive_utc|to_utc|with_timezone|fixed_offset|offset)$", r"^chrono::naive::datetime::NaiveDateTime::(and_utc|and_local_timezone_)$",
    r"^chrono::offset::fixed::FixedOffset::local_minus_utc$")
def moment(E, callee, args, st, ctx, b, span):
    """a moment is what it was parsed from, shifted by its offset when its wall clock is taken for UTC"""
    n = (callee.get("rpath") or callee["path"]).split("::")[-1]
    x = D(E, st, args[0])
    if n == "local_minus_utc":
        return ret(App("p:seconds of", x), st)
    if n == "offset":
        return ret(App("p:offset", x), st)
    if n == "naive_local":
        return ret(App("p:wall clock", x), st)
    return ret(x, st)


def pure(E, callee, args, st, ctx, b, span):
    n = (callee.get("rpath") or callee["path"]).split("::")[-1]
    xs = [D(E, st, a) for a in args]
    if n == "timestamp" and len(xs) == 1:
        return ret(lift(xs[0], seconds) if xs[0].k == "phi" else seconds(xs[0]), st)
    return ret(App("p:" + n, *xs), st)


def seconds(x):
    if x.k == "app" and x.a[0] == "p:wall clock":
        return Add(seconds(x.a[1][0]), App("p:seconds of", App("p:offset", x.a[1][0])))
    return App("p:timestamp", x)


for _p in PURE:
    rx(_p)(pure)


# ------------------------------------------------------------------ markers
@ours
@prim("marks::same", "marks::holds", "marks::see", "marks::given", "marks::never", "marks::any")
def mark(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    if name == "given":
        s = E.assume_is(st, args[0], TRUE)
        return ret(UNIT, s) if s is not None else []
    if name == "any":
        return ret(Sym("any:" + (args[0].a[0] if args[0].k == "str" else "?")), st)
    vals = [D(E, st, a) for a in args]
    E.record(name, ctx, b, st, vals=vals, span=span)
    if name == "never":
        return []
    return ret(UNIT, st)


# ------------------------------------------------------------------ text
def json_text(x):
    """the text of a JSON value: a map's keys are unique, and their order is not that of insertion"""
    def norm(x):
        if x.k == "phi":
            return lift(x, norm)
        if x.k != "agg":
            return x
        kids = [norm(y) for y in x.a[2]]
        if x.a[0] == "array" and kids and all(y.k == "agg" and y.a[0] == "tuple" and len(y.a[2]) == 2 and y.a[2][0].k == "str" for y in kids):
            kids.sort(key=lambda y: y.a[2][0].a[0])
        return Agg(x.a[0], x.a[1], tuple(kids))
    return App("json", norm(x))


@rx(r"^serde_json::value::from::<impl core::convert::From<(&'a str|&str|alloc::string::String|alloc::borrow::Cow<'a, str>)> for serde_json::value::Value>::from$",
    r"^<serde_json::value::Value as core::convert::From<(&'a str|&str|alloc::string::String|alloc::borrow::Cow<'a, str>)>>::from$")
def json_of_text(E, callee, args, st, ctx, b, span):
    return ret(Agg("serde_json::value::Value", 3, (D(E, st, args[0]),)), st)


@rx(r"^serde_json::ser::(to_string|to_vec)$")
def json_to_string(E, callee, args, st, ctx, b, span):
    x = D(E, st, args[0])
    V = "serde_json::value::Value"

    def value(x):
        if x.k == "phi":
            return lift(x, value)
        if x.k == "agg" and x.a[0] == V:
            return x
        if x.k == "agg" and x.a[0] == "array" and all(y.k == "agg" and y.a[0] == "tuple" and len(y.a[2]) == 2 for y in x.a[2]):
            return Agg(V, 5, (Agg("array", 0, tuple(Agg("tuple", 0, (y.a[2][0], value(y.a[2][1]))) for y in x.a[2])),))
        return Agg(V, 3, (x,))
    t = peel(E, callee["a"][0]) if callee.get("a") else None
    if t is None or E.types[t].get("adt") not in (V, "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "serde_json::map::Map"):
        return None
    return ret(Ok(json_text(value(x))), st)


def display(E, callee, v, ty, st, ctx, b, span, kind="display"):
    """-> [(text, state)]"""
    t = peel(E, ty)
    td = E.types[t]
    val = C(E, st, v)
    if td["k"] == "adt" and td["adt"] == "serde_json::value::Value":
        return [(json_text(D(E, st, val)), st)]
    if kind == "display":
        if is_strlike(E, t):
            return [(D(E, st, val), st)]
        if td["k"] == "char":
            return [(chr_text(val), st)]
        if td["k"] in ("int", "uint"):
            return [(Str(str(val.a[0])) if val.k == "int" else App("dec", val), st)]
        if td["k"] == "float":
            return [(App("fdisp", val), st)]
    if kind == "debug" and td["k"] in ("int", "uint"):
        return [(Str(str(val.a[0])) if val.k == "int" else App("dec", val), st)]
    if kind in ("display", "debug") and td["k"] == "bool":
        return [(Str("true" if b else "false"), s) for b, s in branches(E, st, val)]
    i = callee.get("fmt_inst")
    if i is not None and "body" in E.inst[i]:
        root = ("F", ctx, b, i, len(E.where(ctx)))
        s = st.copy()
        s.mem[root] = Str("")
        c = E.ctx("call", ctx, b, i)
        vv = v if v.k == "ref" else v
        out = []
        for r, s2 in E.run_inst(i, [vv, Ref(root)], s, c):
            txt = E.deep(s2, s2.mem[root])
            s2 = s2.copy()
            s2.mem.pop(root)
            out.append((txt, s2))
        return out
    return [(App(kind + ":" + td.get("s", "?"), D(E, st, val)), st)]


def chr_text(v):
    if v.k == "int":
        return Str(chr(v.a[0]))
    if v.k == "phi":
        return lift(v, chr_text)
    return App("chr", v)


@rx(r"^core::fmt::rt::Argument::<'_>::new_")
def fmt_arg(E, callee, args, st, ctx, b, span):
    kind = callee["path"].split("::new_")[-1]
    return ret(T("fmtarg", kind, callee.get("fmt_ty", callee["a"][0]), callee.get("fmt_inst"), args[0]), st)


def decode_template(bs):
    out = []
    i = 0
    nextarg = 0
    while i < len(bs):
        c = bs[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", bs[i:i + c].decode("utf-8", "surrogateescape")))
            i += c
        elif c == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bs[i:i + n].decode("utf-8", "surrogateescape")))
            i += n
        else:
            flags = None
            if c & 1:
                flags = int.from_bytes(bs[i:i + 4], "little")
                i += 4
            if c & 2:
                flags = (flags, "w", int.from_bytes(bs[i:i + 2], "little"))
                i += 2
            if c & 4:
                flags = (flags, "p", int.from_bytes(bs[i:i + 2], "little"))
                i += 2
            if c & 8:
                nextarg = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            out.append(("arg", nextarg, flags))
            nextarg += 1
    return out


@rx(r"^core::fmt::(rt::<impl core::fmt::Arguments<'a>>|Arguments::<'a>)::(new|new_const|from_str|from_str_nonconst|new_v1)$", r"^core::fmt::rt::.*Arguments.*::(new|from_str|from_str_nonconst)$")
def fmt_args(E, callee, args, st, ctx, b, span):
    name = callee["path"].split("::")[-1]
    if name.startswith("from_str"):
        return ret(T("fmtargs", (("lit", C(E, st, args[0])),)), st)
    t = C(E, st, args[0])
    a = C(E, st, args[1]) if len(args) > 1 else EMPTYSEQ
    if t.k == "agg":
        bs = bytes(x.a[0] for x in t.a[2])
    elif t.k == "str":
        bs = t.a[0].encode("utf-8", "surrogateescape")
    else:
        return None
    out = []
    for p in decode_template(bs):
        if p[0] == "lit":
            out.append(("lit", Str(p[1])))
        else:
            arg = Idx(a, Int(p[1]))
            out.append(("arg", arg, str(p[2]) if p[2] is not None else None))
    return ret(T("fmtargs", tuple(out)), st)


def expand(E, fa, st, ctx, b, span):
    """-> [(list of pieces, state)] for a fmtargs term"""
    fa = C(E, st, fa)
    if fa.k == "phi":
        out = []
        for l, _ in fa.a[1]:
            s = E.restrict_state(st, fa.a[0], {l})
            if s is not None:
                out.extend(expand(E, restrict(fa, fa.a[0], {l}), s, ctx, b, span))
        return out
    if fa.k != "fmtargs":
        return [([App("fmt:unknown", fa)], st)]
    cur = [([], st)]
    for n, p in enumerate(fa.a[0]):
        nxt = []
        for ps, s in cur:
            if p[0] == "lit":
                nxt.append((ps + [p[1]], s))
                continue
            arg = p[1]
            if arg.k != "fmtarg":
                nxt.append((ps + [App("fmt:unknown", arg)], s))
                continue
            kind, ty, inst, v = arg.a
            for txt, s2 in display(E, {"fmt_inst": inst}, v, ty, s, E.ctx("fmt", ctx, b, n), b, span, kind):
                if p[2] is not None and p[2] not in ("3758096416", "(3758096416)"):
                    txt = App("fmtflags:" + p[2], txt)
                nxt.append((ps + [txt], s2))
        cur = nxt
    return cur


@rx(r"^alloc::fmt::format$", r"^alloc::fmt::format::format_inner$")
def fmt_format(E, callee, args, st, ctx, b, span):
    return [(Cat(*ps), s) for ps, s in expand(E, args[0], st, ctx, b, span)]


@rx(r"^core::fmt::Formatter::<'a>::write_fmt$", r"^core::fmt::Formatter::<'_>::write_fmt$", r"^core::fmt::Write::write_fmt$",
    r"^<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt$", r"^<alloc::string::String as core::fmt::Write>::write_fmt$")
def fmt_write(E, callee, args, st, ctx, b, span):
    out = []
    for ps, s in expand(E, args[1], st, ctx, b, span):
        s2 = setref(E, s, args[0], Cat(C(E, s, args[0]), *ps))
        out.append((Ok(UNIT), s2))
    return out


@rx(r"^core::fmt::Formatter::<'a>::(write_str|pad)$", r"^core::fmt::Formatter::<'_>::(write_str|pad)$", r"^<core::fmt::Formatter<'_> as core::fmt::Write>::write_str$",
    r"^<alloc::string::String as core::fmt::Write>::write_str$", r"^alloc::string::String::push_str$", r"^core::fmt::Write::write_str$")
def fmt_write_str(E, callee, args, st, ctx, b, span):
    s = setref(E, st, args[0], Cat(C(E, st, args[0]), D(E, st, args[1])))
    return ret(UNIT if callee["path"].endswith("push_str") else Ok(UNIT), s)


@rx(r"^alloc::string::String::push$", r"^<core::fmt::Formatter<'_> as core::fmt::Write>::write_char$", r"^<alloc::string::String as core::fmt::Write>::write_char$")
def fmt_push(E, callee, args, st, ctx, b, span):
    s = setref(E, st, args[0], Cat(C(E, st, args[0]), chr_text(C(E, st, args[1]))))
    return ret(UNIT if callee["path"].endswith("::push") else Ok(UNIT), s)


@rx(r"^core::fmt::(num::|float::)?.*<impl core::fmt::Display for (f\d+|[iu](\d+|size)|str|char|bool)>::fmt$", r"^<(f\d+|[iu](\d+|size)|str|char|bool) as core::fmt::Display>::fmt$",
    r"^<(alloc::string::String|smol_str::SmolStr|alloc::borrow::Cow<.*>|&T) as core::fmt::Display>::fmt$")
def prim_display(E, callee, args, st, ctx, b, span):
    out = []
    for txt, s in display(E, {}, args[0], callee["a"][0], st, ctx, b, span):
        out.append((Ok(UNIT), setref(E, s, args[1], Cat(C(E, s, args[1]), txt))))
    return out


@rx(r"^<T as alloc::string::(ToString|SpecToString)>::(to_string|spec_to_string)$", r"^alloc::string::ToString::to_string$")
def to_string(E, callee, args, st, ctx, b, span):
    return display(E, callee, args[0], callee.get("fmt_ty", callee["a"][0]), st, ctx, b, span)


@rx(r"^core::slice::<impl \[T\]>::reverse$")
def slice_reverse(E, callee, args, st, ctx, b, span):
    v = C(E, st, args[0])
    if v.k == "agg" and v.a[0] == "array":
        return ret(UNIT, setref(E, st, args[0], Agg("array", 0, tuple(reversed(v.a[2])))))
    return None
