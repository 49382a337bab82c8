"""What the XML and OSC writers emit: every write to the probe's Sink is fed, as abstract text, to the automaton
of an XML tokenizer kept in the state; the values of attributes and children are kept in cells."""
import re
from term import *
import ai

OBJ = ("node", "way", "relation")
OBJ_ATTRS = ("id", "visible", "version", "user", "uid", "changeset", "timestamp", "lat", "lon")
KIDS = {"nd": ("ref",), "member": ("type", "ref", "role"), "tag": ("k", "v")}
ROOT_ATTRS = ("version", "generator")
NONE = Agg("core::option::Option", 0, ())
VAL = ("X", "val")
NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:")
WS = " \t\r\n"


def cells():
    out = {VAL: Str(""), ("X", "count"): Int(0), ("X", "wrote"): FALSE, ("X", "elem"): Str("")}
    for a in OBJ_ATTRS:
        out[("X", "attr", a)] = NONE
    for a in ROOT_ATTRS:
        out[("X", "root", a)] = NONE
    for k, fs in KIDS.items():
        out[("X", "kids", k)] = EMPTYSEQ
        for f in fs:
            out[("X", "kid", k, f)] = NONE
    out[("X", "kids", "member", "role")] = EMPTYSEQ
    return out


# ghost: (mode, elements, text read so far, failed)
# modes: start prolog text lt bang decl decl? name tag tagsp attr eq val:<q> close closesp slash epilog dead
def is_sink(E, callee):
    tr = callee.get("trait") or ""
    if not tr.endswith("::Write") or "io" not in tr.split("::"):
        return False
    a = callee.get("a") or []
    if not a:
        return False
    td = E.types[E.P.peel(E, a[0])]
    return td.get("k") == "adt" and td.get("adt", "").endswith("::Sink")


class Out:
    """hook; track: follow the text; fail: writes may fail"""

    def __init__(self, track=True, fail=False):
        self.track, self.fail = track, fail

    def __call__(self, E, callee, args, st, ctx, b, span):
        p = callee.get("path") or ""
        if p.startswith("probe::marks::") or "marks::" in p:
            return self.marks(E, callee, args, st, ctx, b, span)
        if not is_sink(E, callee):
            return None
        name = p.split("::")[-1]
        if name == "by_ref":
            return [(args[0], st)]
        if name not in ("write_fmt", "write_all", "flush", "write"):
            return None
        g = st.ghost
        if g[3]:
            E.record("afterfail", ctx, b, st, span=span)
        out = []
        if self.fail:
            s = st.copy()
            s.ghost = g[:3] + (True,)
            s.mem[("X", "wrote")] = TRUE
            out.append((Err(Sym("ioerror")), s))
        if name == "flush":
            return out + [(Ok(UNIT), st)]
        if name == "write":
            E.record("short", ctx, b, st, span=span)
            return out + [(Ok(Sym("written")), st)]
        if not self.track:
            s = st.copy()
            s.mem[("X", "wrote")] = TRUE
            if name == "write_fmt":
                return out + [(Ok(UNIT), s)]
            return out + [(Ok(UNIT), s)]
        if name == "write_fmt":
            ex = E.P.expand(E, args[1], st, ctx, b, span)
        else:
            ex = [([E.P.D(E, st, args[1])], st)]
        for ps, s in ex:
            s = s.copy()
            s.mem[("X", "wrote")] = TRUE
            for s2 in self.feed(E, list(ps), s, ctx, b, span):
                out.append((Ok(UNIT), s2))
        return out

    # ---------------------------------------------------------------- marks of the laws
    def marks(self, E, callee, args, st, ctx, b, span):
        name = callee["path"].split("::")[-1]
        if name == "attr":
            k = E.P.D(E, st, args[0]).a[0]
            return [(st.mem[("X", "attr", k)], st)]
        if name == "kids":
            k = E.P.D(E, st, args[0]).a[0]
            return [(st.mem[("X", "kids", k)], st)]
        if name == "roles":
            return [(st.mem[("X", "kids", "member", "role")], st)]
        if name == "wrote":
            return [(st.mem[("X", "wrote")], st)]
        if name == "objects":
            return [(st.mem[("X", "count")], st)]
        if name == "element":
            return [(st.mem[("X", "elem")], st)]
        if name == "fresh":
            s = st.copy()
            s.mem[("X", "wrote")] = FALSE
            return [(UNIT, s)]
        if name == "failed":
            return [(Bool(st.ghost[3]), st)]
        if name == "written":
            return written(E, st)
        if name == "whole":
            # the document is complete
            E.record("whole", ctx, b, st, vals=[E.P.D(E, st, args[0])], span=span, ok=st.ghost[0] == "epilog")
            return [(UNIT, st)]
        if name == "balanced":
            E.record("whole", ctx, b, st, vals=[E.P.D(E, st, args[0])], span=span, ok=st.ghost[0] == "text" and not any(x in OBJ or x in KIDS for x in st.ghost[1]))
            return [(UNIT, st)]
        return None

    # ---------------------------------------------------------------- text
    def feed(self, E, pieces, st, ctx, b, span):
        """-> states after these pieces of text"""
        pieces = [q for p in pieces for q in parts(p)]
        states = [st]
        for n, p in enumerate(pieces):
            nxt = []
            for s in states:
                nxt.extend(self.piece(E, p, s, ctx, b, span))
            states = nxt
        return states

    def piece(self, E, p, st, ctx, b, span):
        if p.k == "phi":
            out = []
            for l, _ in p.a[1]:
                s = E.restrict_state(st, p.a[0], {l})
                if s is not None:
                    out.extend(self.feed(E, [restrict(p, p.a[0], {l})], s, ctx, b, span))
            return out
        v = ai.value(st.facts, p)
        if v is not None and v.k == "str":
            p = v
        if p.k == "str":
            s = st.copy()
            for ch in p.a[0]:
                self.char(E, ch, s, ctx, b, span)
            return [s]
        s = st.copy()
        mode, stack, acc, failed = s.ghost
        if mode.startswith("val:"):
            why = unsafe(E, s, p, mode[4:])
            if why:
                E.record("raw", ctx, b, s, span=span, why=why, what=p, maybe=why == PLAIN and E.P.text_key(p) in E.__dict__.get("scanned", ()), attr=acc, elem=stack[-1] if stack else "")
            s.mem[VAL] = Cat(s.mem[VAL], p)
        elif mode == "text":
            why = unsafe(E, s, p, "<")
            E.record("markup", ctx, b, s, span=span, why="text between the elements", what=p, key="text")
        elif mode in ("tagsp", "attr", "name", "close", "lt", "tag"):
            E.record("markup", ctx, b, s, span=span, why="a name in the markup which is no constant", what=p, key="name in <%s>" % (stack[-1] if stack else "?") if mode in ("tagsp", "attr") else "element name")
            if mode in ("tagsp",):
                s.ghost = ("attr", stack, "?", failed)
            elif mode == "lt":
                s.ghost = ("name", stack, "?", failed)
        else:
            E.record("markup", ctx, b, s, span=span, why="text where none may be (%s)" % mode, what=p, key=mode)
        return [s]

    def bad(self, E, s, ctx, b, span, why):
        E.record("markup", ctx, b, s, span=span, why=why, what=None, key=why)

    def char(self, E, ch, s, ctx, b, span):
        mode, stack, acc, failed = s.ghost

        def to(mode, stack=stack, acc=""):
            s.ghost = (mode, stack, acc, failed)
        if mode == "dead":
            return
        if mode.startswith("val:"):
            if ch == mode[4:]:
                self.attr_done(E, s, acc, stack, ctx, b, span)
                to("tag")
            elif ch == "<":
                self.bad(E, s, ctx, b, span, "< in an attribute value")
            else:
                s.mem[VAL] = Cat(s.mem[VAL], Str(ch))
            return
        if mode == "start":
            if ch == "<":
                return to("lt", acc="first")
            self.bad(E, s, ctx, b, span, "text before the XML declaration")
            return to("dead")
        if mode in ("prolog", "epilog", "text"):
            if ch == "<":
                return to("lt", acc=mode)
            if mode != "text" and ch not in WS:
                self.bad(E, s, ctx, b, span, "text outside the root element")
                return to("dead")
            if ch == "&":
                pass
            return
        if mode == "lt":
            if ch == "?":
                if acc != "first":
                    self.bad(E, s, ctx, b, span, "an XML declaration inside the document")
                return to("decl", acc="")
            if acc == "first":
                self.bad(E, s, ctx, b, span, "no XML declaration")
            if ch == "!":
                return to("bang", acc=acc)
            if ch == "/":
                if not stack:
                    self.bad(E, s, ctx, b, span, "an end tag outside the root element")
                return to("close")
            if acc == "epilog":
                self.bad(E, s, ctx, b, span, "a second root element")
            if ch not in NAMECH:
                self.bad(E, s, ctx, b, span, "no element name after <")
                return to("dead")
            return to("name", acc=ch)
        if mode == "decl":
            if ch == ">" and acc.endswith("?"):
                if not (acc.startswith("xml ") and "version=" in acc):
                    self.bad(E, s, ctx, b, span, "not an XML declaration: <?" + acc)
                return to("prolog")
            return to("decl", acc=acc + ch)
        if mode == "bang":
            if ch == ">":
                return to(acc if acc in ("text", "epilog") else "prolog")
            return
        if mode == "name":
            if ch in WS or ch in "/>":
                stack = stack + (acc,)
                self.open(E, s, acc, stack, ctx, b, span)
                mode = "tagsp" if ch in WS else "tag"
                s.ghost = (mode, stack, "", failed)
                if ch in "/>":
                    return self.char(E, ch, s, ctx, b, span)
                return
            return to("name", acc=acc + ch)
        if mode in ("tag", "tagsp"):
            if ch in WS:
                return to("tagsp")
            if ch == ">":
                return to("text")
            if ch == "/":
                return to("slash")
            if mode == "tag":
                self.bad(E, s, ctx, b, span, "no space before an attribute")
            if ch not in NAMECH:
                self.bad(E, s, ctx, b, span, "%r in a tag" % ch)
                return to("dead")
            return to("attr", acc=ch)
        if mode == "slash":
            if ch != ">":
                self.bad(E, s, ctx, b, span, "no > after /")
                return to("dead")
            return self.closed(E, s, stack, ctx, b, span)
        if mode == "attr":
            if ch == "=":
                return to("eq", acc=acc)
            if ch in WS or ch in "/><\"'":
                self.bad(E, s, ctx, b, span, "an attribute without value")
                return to("dead")
            return to("attr", acc=acc + ch)
        if mode == "eq":
            if ch in "\"'":
                s.mem[VAL] = Str("")
                return to("val:" + ch, acc=acc)
            self.bad(E, s, ctx, b, span, "an attribute value without quotes")
            return to("dead")
        if mode == "close":
            if ch == ">":
                name = acc.rstrip(WS)
                if stack and stack[-1] != name and stack != ("?",):
                    self.bad(E, s, ctx, b, span, "</%s> where </%s> is due" % (name, stack[-1]))
                    return to("dead")
                return self.closed(E, s, stack, ctx, b, span)
            return to("close", acc=acc + ch)

    def open(self, E, s, name, stack, ctx, b, span):
        if name in OBJ:
            s.mem[("X", "count")] = Add(s.mem[("X", "count")], Int(1))
            s.mem[("X", "elem")] = Str(name)
            for a in OBJ_ATTRS:
                s.mem[("X", "attr", a)] = NONE
        elif name in KIDS:
            for f in KIDS[name]:
                s.mem[("X", "kid", name, f)] = NONE
        elif name in ("osm", "osmChange"):
            for f in ROOT_ATTRS:
                s.mem[("X", "root", f)] = NONE
        elif name not in ("create", "modify", "delete", "?"):
            E.record("vocab", ctx, b, s, span=span, what="element " + name)
        parent = stack[-2] if len(stack) > 1 else None
        if name in KIDS and parent not in OBJ:
            E.record("vocab", ctx, b, s, span=span, what="%s outside an object" % name)
        if name in KIDS and ((name == "nd" and parent == "node") or (name == "member" and parent != "relation") or (name == "nd" and parent == "relation")):
            E.record("vocab", ctx, b, s, span=span, what="%s in a %s" % (name, parent))

    def cell(self, elem, attr):
        if elem in OBJ and attr in OBJ_ATTRS:
            return ("X", "attr", attr)
        if elem in KIDS and attr in KIDS[elem]:
            return ("X", "kid", elem, attr)
        if elem in ("osm", "osmChange") and attr in ROOT_ATTRS:
            return ("X", "root", attr)
        return None

    def attr_done(self, E, s, attr, stack, ctx, b, span):
        elem = stack[-1] if stack else "?"
        c = self.cell(elem, attr)
        v = canonical(s.mem[VAL])
        s.mem[VAL] = Str("")
        if c is None:
            if attr != "?" and elem not in ("osm", "osmChange"):
                E.record("vocab", ctx, b, s, span=span, what="attribute %s of %s" % (attr, elem))
            return
        old = s.mem[c]
        if old is not NONE:
            E.record("dup", ctx, b, s, span=span, what="%s of %s" % (attr, elem), old=old)
        s.mem[c] = Some(v)

    def closed(self, E, s, stack, ctx, b, span):
        name = stack[-1] if stack else "?"
        if name in KIDS:
            item = Agg("tuple", 0, [s.mem[("X", "kid", name, f)] for f in KIDS[name]])
            s.mem[("X", "kids", name)] = Snoc(s.mem[("X", "kids", name)], item)
            if name == "member":
                s.mem[("X", "kids", name, "role")] = Snoc(s.mem[("X", "kids", name, "role")], item.a[2][2])
            for f in KIDS[name]:
                s.mem[("X", "kid", name, f)] = NONE
        stack = stack[:-1]
        s.ghost = ("text" if stack else "epilog", stack, "", s.ghost[3])


ENT = {"&amp;": "&", "&lt;": "<", "&gt;": ">", "&quot;": '"', "&apos;": "'", "&#38;": "&", "&#34;": '"', "&#39;": "'", "&#60;": "<", "&#62;": ">"}

NAMES = {v: k for k, v in reversed(ENT.items())}


def excluded(t, facts):
    """the characters which the facts rule out in this text"""
    none = set()
    for ch in "&<>'\"":
        if ai.value(facts, App("p:contains", t, Str(ch))) is FALSE:
            none.add(ch)
    for k, v in (facts or {}).items():
        if k.k == "app" and k.a[0] == "p:contains_any" and k.a[1][0] is t and ai.value(facts, k) is FALSE:
            none.update(k.a[1][1].a[0])
    return none


def replaced(t, facts):
    """a chain of replacements of single characters: (the text it starts from, what becomes of every character the facts
    allow in it)"""
    steps = []
    while t.k == "app" and t.a[0] == "p:replace":
        x, c, y = t.a[1]
        if c.k != "str" or len(c.a[0]) != 1 or y.k != "str":
            return None
        steps.append((c.a[0], y.a[0]))
        t = x
    if not steps or t.k in ("str", "cat", "comp", "phi"):
        return None
    none = excluded(t, facts)
    image = {}
    for ch in set("&<>'\"x").union(c for c, _ in steps) - none:
        y = ch
        for c, to in reversed(steps):
            y = y.replace(c, to)
        image[ch] = y
    return t, image


def canonical(t):
    """every entity the code has for a character, as one name for it"""
    if t.k == "str":
        return Str(re.sub(r"&#[0-9]+;", lambda m: NAMES.get(ENT.get(m.group(0)), m.group(0)), t.a[0]))
    if t.k == "app" and t.a[0] == "p:replace":
        return App("p:replace", canonical(t.a[1][0]), t.a[1][1], canonical(t.a[1][2]))
    if t.k == "cat":
        return Cat(*[canonical(x) for x in t.a[0]])
    if t.k == "phi":
        return Phi(t.a[0], [(e, canonical(x)) for e, x in t.a[1]])
    if t.k == "comp":
        return T("comp", t.a[0], t.a[1], tuple((c, tuple(canonical(i) for i in items)) for c, items in t.a[2]), *t.a[3:])
    return t


def unescaped(s):
    return re.sub(r"&[a-z0-9#]+;", lambda m: ENT.get(m.group(0), m.group(0)), s)


def decode(E, st, t):
    """the text an XML parser hands out for this attribute value; None: not known"""
    if t.k == "str":
        return Str(unescaped(t.a[0]))
    if t.k == "phi":
        alts = []
        for l, x in t.a[1]:
            d = decode(E, st, x)
            if d is None:
                return None
            alts.append((l, d))
        return Phi(t.a[0], alts)
    if t.k == "cat":
        ds = [decode(E, st, x) for x in t.a[0]]
        return None if any(d is None for d in ds) else Cat(*ds)
    if t.k == "app" and t.a[0] in ("dec", "fdisp"):
        return t
    if t.k == "app" and t.a[0] == "p:replace":
        r = replaced(t, st.facts)
        if r is not None and all(unescaped(y) == ch and ("&" in y or ch != "&") for ch, y in r[1].items()):
            return r[0]
        return None
    if t.k == "comp":
        # every character as it is or as its entity: the text it was made of
        src = None
        if parts(t.a[1]):
            return None
        for cond, items in t.a[2]:
            if len(items) != 1:
                return None
            (i,) = items
            if i.k == "app" and i.a[0] == "chr":
                c = i.a[1][0]
            elif i.k == "str" and i.a[0] in ENT:
                c = None
                for x, v in cond:
                    if v[0] != "=":
                        continue
                    v = v[1] if hasattr(v[1], "k") else Int(v[1])
                    if v is TRUE and x.k == "eq":
                        for p, q in (x.a, x.a[::-1]):
                            if q.k == "int" and q.a[0] == ord(ENT[i.a[0]]):
                                c = p
                    elif v.k == "int" and v.a[0] == ord(ENT[i.a[0]]):
                        c = x
                if c is None:
                    return None
            else:
                return None
            if src is not None and src is not c:
                return None
            src = c
        if src is None or src.k != "idx" or src.a[1].k != "bv":
            return None
        b = src.a[0]
        if b.k == "app" and b.a[0] == "chars" and t.a[3] is Len(b):
            return b.a[1][0]
        return None
    return None


def written(E, st):
    """the events of the current object, as the parser shows them"""
    states = [st]
    for c in [("X", "attr", a) for a in OBJ_ATTRS]:
        nxt = []
        for s in states:
            v = s.mem[c]
            if v.k == "phi":
                some = {l for l, x in v.a[1] if x is not NONE}
                none = {l for l, x in v.a[1] if x is NONE}
                if some and none:
                    for ls in (some, none):
                        s2 = E.restrict_state(s, v.a[0], ls)
                        if s2 is not None:
                            nxt.append(s2)
                    continue
            nxt.append(s)
        states = nxt
    for c in [("X", "kids", k) for k in KIDS]:
        nxt = []
        for s in states:
            v = s.mem[c]
            if v.k == "phi":
                for l, _ in v.a[1]:
                    s2 = E.restrict_state(s, v.a[0], {l})
                    if s2 is not None:
                        nxt.append(s2)
            else:
                nxt.append(s)
        states = nxt
    out = []
    for s in states:
        ats = []

        def at(k, v):
            v = E.P.D(E, s, Fld(v, 1, 0))
            d = decode(E, s, v)
            ats.append(Agg("marks::At", 0, (Str(k), d if d is not None else App("unknown text", v))))
        for a in OBJ_ATTRS:
            v = s.mem[("X", "attr", a)]
            if v is not NONE:
                at(a, v)
        el = s.mem[("X", "elem")]
        V = {v[0]: i for i, v in enumerate(E.adt("marks::Ev")["v"])}
        evs = [Agg("marks::Ev", V["Start"], (el, Agg("array", 0, ats)))]
        for k, fs in KIDS.items():
            seq = s.mem[("X", "kids", k)]
            if seq.k != "agg":
                return None
            for kid in seq.a[2]:
                ats = []
                for f, v in zip(fs, kid.a[2]):
                    if v is not NONE:
                        at(f, v)
                evs.append(Agg("marks::Ev", V["Empty"], (Str(k), Agg("array", 0, ats))))
        evs.append(Agg("marks::Ev", V["End"], (el,)))
        if len(states) > 1:
            # documents of different shape are kept apart
            s = s.copy()
            s.ghost = (s.ghost[0], s.ghost[1], "#%d" % len(out), s.ghost[3])
        out.append((Agg("array", 0, evs), s))
    return out


def may_be(facts, c, code):
    v = ai.value(facts, Eq(c, Int(code)))
    return v is not FALSE


PLAIN = "text is written as it is"


def unsafe(E, st, p, quote, facts=None):
    """why this text could end the attribute value or hide an entity; None: it cannot"""
    facts = st.facts if facts is None else facts
    if p.k == "app":
        n = p.a[0]
        if n in ("dec", "fdisp"):
            return None
        if n == "chr":
            c = p.a[1][0]
            for ch in ("&", "<", quote):
                if may_be(facts, c, ord(ch)):
                    return "a character which may be %s is written as it is" % ch
            return None
    if p.k == "str":
        return None
    r = replaced(p, facts)
    if r is not None:
        for ch, y in r[1].items():
            left = re.sub(r"&[a-z0-9#]+;", "", y)
            for c in ("&", "<", quote):
                if c in left:
                    return "a character which may be %s is written as it is" % c
        return None
    if p.k == "comp":
        for cond, items in p.a[2]:
            f = ai.facts_meet(facts, {x: y for x, y in cond})
            if f is None:
                continue
            for i in items:
                w = unsafe(E, st, i, quote, f)
                if w:
                    return w
        return None
    if p.k == "cat":
        for i in p.a[0]:
            w = unsafe(E, st, i, quote, facts)
            if w:
                return w
        return None
    ex = excluded(p, facts)
    return None if {"&", "<", quote} <= ex else PLAIN


def start(mode="text", stack=("?",)):
    def f(E, iid, args, st):
        st.mem.update(cells())
        st.ghost = (mode, stack, "", False)
        return st, args
    return f
