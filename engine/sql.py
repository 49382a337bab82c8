"""C25: the export program as a typestate over the calls it makes to the database and to the changeset reader.

Ghost of a state: what the path has done so far. The n-th item the reader gives is (id of n, tags of n)."""
import os
import re
from collections import namedtuple
from term import *
import equal
import laws

G = namedtuple("G", "opened txn pending ended failed committed lost")
NONE = Agg("core::option::Option", 0, ())
N = ("Q", "n")
START = G(False, False, False, False, False, 0, False)


def start(E, iid, args, st):
    st.mem[N] = Int(0)
    st.ghost = START
    return st, args


def g(st, **kw):
    s = st.copy()
    s.ghost = st.ghost._replace(**kw)
    return s


def fails(st, v, **kw):
    """Ok(v), or an error which has to be reported"""
    return [(Ok(v), g(st, **kw)), (Err(Sym("error")), g(st, failed=True))]


def may_fail(E, b, st, v, **kw):
    out = []
    for t, s in E.branch(st, App("p:works", Int(b), st.mem[N])):
        out.append((Ok(v), g(s, **kw)) if t else (Err(Sym("error")), s))
    return out


def need(E, ctx, b, st, span, label, ok, why, a=None, x=None):
    E.record("sql", ctx, b, st, span=span, label=label, ok=ok, why=why, vals=(a, x))


def reader_of(E, callee):
    """the adaptors around the reader: None, 'plain', 'progress' or 'optional'"""
    a = callee.get("a") or []
    if not a:
        return None
    td = E.types[E.P.peel(E, a[0])]
    if td.get("k") != "adt":
        return None
    n = td.get("adt", "")
    if n.endswith("ChangesetTagReader"):
        return "plain"
    if n.startswith("iter_progress::"):
        return "optional" if "Optional" in n else "progress"
    return None


def text_of(t):
    return t.a[0] if t is not None and t.k == "str" else None


def parse(sql):
    """-> (kind, {column: index of the parameter})"""
    if sql is None:
        return "?", {}
    s = re.sub(r"--[^\n]*|/\*.*?\*/", " ", sql, flags=re.S).strip().rstrip(";").strip()
    u = " ".join(s.upper().split())
    m = re.match(r"(?is)insert\s+(or\s+(\w+)\s+)?into\s+\w+\s*(\(([^)]*)\))?\s*values\s*\(([^)]*)\)\s*(.*)$", s)
    if m:
        if m.group(2) and m.group(2).upper() in ("IGNORE", "REPLACE") or m.group(6).strip():
            return "insert some", {}
        cols = [c.strip().strip('"`[]').lower() for c in m.group(4).split(",")] if m.group(4) else ["id", "other_tags"]
        vals = [v.strip() for v in m.group(5).split(",")]
        if len(cols) != len(vals):
            return "insert", {}
        out = {}
        for i, (c, v) in enumerate(zip(cols, vals)):
            n = re.match(r"\?(\d*)$", v)
            out[c] = int(n.group(1)) - 1 if n and n.group(1) else i if n else v
        return "insert", out
    if u.startswith("REPLACE"):
        return "insert some", {}
    if u.startswith(("CREATE TABLE", "CREATE TEMP")):
        return "create", {}
    if u.startswith("PRAGMA"):
        return "unsafe pragma" if re.match(r"PRAGMA (\w+\.)?JOURNAL_MODE ?(=|\() ?'?(OFF|MEMORY)|PRAGMA (\w+\.)?SYNCHRONOUS ?(=|\() ?'?(OFF|0)", u) else "pragma", {}
    if u.startswith(("BEGIN", "SAVEPOINT")):
        return "begin", {}
    if u.startswith(("COMMIT", "END", "RELEASE")):
        return "commit", {}
    if u.startswith("ROLLBACK"):
        return "rollback", {}
    if u.startswith(("DELETE", "UPDATE", "DROP")):
        return "change", {}
    if u.startswith(("CREATE INDEX", "CREATE UNIQUE INDEX", "SELECT", "ANALYZE", "VACUUM", "CREATE VIEW")):
        return "other", {}
    return "?", {}


def params(E, st, t):
    t = E.P.D(E, st, t)
    while t.k == "agg" and len(t.a[2]) == 1 and t.a[0] not in ("tuple", "array"):
        t = t.a[2][0]
    if t.k == "agg" and t.a[0] in ("tuple", "array"):
        return list(t.a[2])
    return None


def execute(E, sql, ps, st, ctx, b, span):
    kind, cols = parse(sql)
    c = st.ghost
    ok = Sym("rows")
    if kind == "create" or kind in ("pragma", "other"):
        return may_fail(E, b, st, ok)
    if kind == "begin":
        return begin(E, st, ok, ctx, b, span)
    if kind == "commit":
        return commit(E, st, ok, ctx, b, span)
    if kind == "rollback":
        return may_fail(E, b, st, ok, txn=False, lost=True)
    if kind == "insert":
        need(E, ctx, b, st, span, "a changeset is inserted within the transaction", c.txn, "no transaction is open: the row stays if a later one fails")
        need(E, ctx, b, st, span, "one row for each changeset", c.pending, "there is no changeset which has been read and not been inserted yet")
        n = Sub1(st.mem[N])
        if ps is None:
            need(E, ctx, b, st, span, "the row is the changeset", None, "unknown parameters")
        else:
            for col, want, label in (("id", App("id of", n), "the row has the changeset's id"), ("other_tags", App("json", App("tags of", n)), "the row has the changeset's tags")):
                i = cols.get(col)
                have = ps[i] if isinstance(i, int) and 0 <= i < len(ps) else None
                if have is None:
                    need(E, ctx, b, st, span, label, False if i is None or not isinstance(i, int) else None, "the column %s is not bound to it" % col)
                else:
                    if col == "id":
                        have = uncast(have)
                    else:
                        have = untext(have)
                    need(E, ctx, b, st, span, label, "eq", "", have, want)
        return fails(st, ok, pending=False)
    if kind in ("insert some", "change", "unsafe pragma"):
        need(E, ctx, b, st, span, "every changeset is inserted", False, "the statement %r" % sql[:80])
        return fails(st, ok, pending=False) if kind == "insert some" else may_fail(E, b, st, ok)
    need(E, ctx, b, st, span, "the statement is known", None, "unknown statement %s" % sql)
    return may_fail(E, b, st, ok)


def Sub1(n):
    return Add(n, Int(-1))


def uncast(t):
    """the same 64 bits"""
    while t.k == "dyn":
        t = t.a[2]
    while t.k == "app" and t.a[0] in ("cast:i64", "cast:u64"):
        t = t.a[1][0]
    return t


def untext(t):
    while t.k == "dyn":
        t = t.a[2]
    while t.k == "app" and t.a[0] in ("utf8", "p:from_utf8", "p:from_utf8_unchecked") and t.a[1]:
        t = t.a[1][0]
    return t


def begin(E, st, v, ctx, b, span):
    c = st.ghost
    need(E, ctx, b, st, span, "everything is inserted in one transaction", not c.committed and not c.txn, "another transaction was begun before")
    return may_fail(E, b, st, v, txn=True)


def commit(E, st, v, ctx, b, span):
    c = st.ghost
    need(E, ctx, b, st, span, "the commit comes after the whole input has been read", c.ended, "the input may not have been read to its end")
    need(E, ctx, b, st, span, "nothing is committed after an error", not c.failed, "an error came before the commit")
    need(E, ctx, b, st, span, "one commit", not c.committed, "there was a commit before")
    need(E, ctx, b, st, span, "the commit is of an open transaction", c.txn, "there is no transaction")
    need(E, ctx, b, st, span, "every changeset is inserted", not c.pending and not c.lost, "a changeset which was read has not been inserted")
    return fails(st, v, committed=1, txn=False)


def counts(E, callee):
    a = callee.get("a") or []
    if len(a) < 2:
        return False
    k, v = E.types[a[0]], E.types[a[1]]
    return v.get("k") == "uint" and k.get("adt", "").endswith("String")


def hook(E, callee, args, st, ctx, b, span):
    p = callee.get("path") or ""
    rp = callee.get("rpath") or p
    name = p.split("::")[-1]
    if p.startswith("rusqlite::") or rp.startswith("rusqlite::") or rp.startswith("<rusqlite::"):
        return database(E, callee, args, st, ctx, b, span, rp, name)
    if p in ("std::path::Path::exists", "std::path::Path::try_exists"):
        v = App("p:exists", E.P.D(E, st, args[0]))
        return [(v, st)] if name == "exists" else [(Ok(v), st), (Err(Sym("error")), st)]
    if p == "anyhow::__private::not":
        return [(Not(E.P.D(E, st, args[0])), st)]
    if p in ("std::fs::metadata", "std::path::Path::metadata"):
        x = App("p:exists", E.P.D(E, st, args[0]))
        return [(Ok(App("metadata", x)) if t else Err(Sym("not found")), s) for t, s in E.branch(st, x)]
    if p in ("std::fs::File::create_new",):
        x = App("p:exists", E.P.D(E, st, args[0]))
        s = E.assume_is(st, x, FALSE)
        return ([(Ok(App("new file")), s)] if s is not None else []) + [(Err(Sym("exists or fails")), st)]
    if p in ("std::path::Path::is_file", "std::path::Path::is_dir"):
        return [(App("p:" + name, E.P.D(E, st, args[0])), st)]
    if args and (re.match(r"<std::path::PathBuf as core::convert::From<", rp) or rp in ("std::path::Path::new", "std::path::Path::to_path_buf", "std::path::PathBuf::as_path") or "<std::path::Path" in rp and name in ("as_ref", "clone", "to_owned", "borrow")):
        return [(E.P.D(E, st, args[0]), st)]
    if p == "std::env::args":
        return [(App("args"), st)]
    if name == "nth" and args and E.P.D(E, st, args[0]).k == "app" and E.P.D(E, st, args[0]).a[0] == "args":
        i = E.P.D(E, st, args[1])
        if i.k == "int":
            return [(Some(App("argument", i)), st), (NONE, st)]
    if p.startswith("std::collections::hash::map::HashMap::<K, V, S") and counts(E, callee):
        # how often each tag key comes: only shown, never stored
        if name == "contains_key":
            return [(App("p:choice", Int(b), st.mem[N]), st)]
        if name in ("get_mut", "get"):
            s = st.copy()
            s.mem[("Q", "count")] = Int(1)
            return [(Some(Ref(("Q", "count"))), s)]
        if name == "insert":
            return [(NONE, st)]
    if p == "std::process::exit":
        code = E.P.D(E, st, args[0])
        if code.k != "int" or code.a[0] == 0:
            final(E, ctx, b, st, span)
        return []
    if p.startswith("serde_json::"):
        if name in ("to_writer", "to_vec", "to_string"):
            v = App("json", E.P.D(E, st, args[-1]))
            if name != "to_writer":
                return fails(st, v)
            s = g(st)
            tgt = E.target_of(args[0])
            if tgt[0] == "val":
                return None
            E.P.setref
            s = E.P.setref(E, st, args[0], E.P.seqcat(E.P.C(E, st, args[0]), v))
            bad = E.P.setref(E, st, args[0], App("broken json"))
            return [(Ok(UNIT), s), (Err(Sym("error")), g(bad, failed=True))]
        return None
    if "ChangesetTagReader" in p and name.startswith("from_"):
        return fails(st, App("reader"))
    if p.startswith("iter_progress::"):
        if name in ("optional_progress", "progress", "assume_size"):
            return [(args[0], st)]
        return [(App("progress of", Str(name), *[E.P.D(E, st, a) for a in args[:1]]), st)]
    r = reader_of(E, callee)
    if r is not None and name == "next":
        return item(E, st, ctx, b, span, r)
    if r is not None and name in ("into_iter", "by_ref"):
        return [(args[0], st)]
    return None


def item(E, st, ctx, b, span, r):
    c = st.ghost
    need(E, ctx, b, st, span, "a changeset is inserted before the next one is read", not c.pending, "the changeset read before has not been inserted")
    wrap = {"plain": lambda x: x, "progress": lambda x: Agg("tuple", 0, (App("record", st.mem[N]), x)),
            "optional": lambda x: Agg("tuple", 0, (App("progress", Str("record"), st.mem[N]), x))}[r]
    n = st.mem[N]
    good = g(st, pending=True, lost=c.lost or c.pending)
    good.mem[N] = Add(n, Int(1))
    return [(Some(wrap(Ok(Agg("tuple", 0, (App("id of", n), App("tags of", n)))))), good),
            (Some(wrap(Err(Sym("bad input")))), g(st, failed=True)),
            (NONE, g(st, ended=True))]


def database(E, callee, args, st, ctx, b, span, p, name):
    c = st.ghost
    if name in ("deref", "deref_mut", "as_ref", "borrow", "borrow_mut"):
        return [(args[0], st)]
    if name in ("open", "open_with_flags", "open_with_flags_and_vfs"):
        path = E.P.D(E, st, args[0])
        need(E, ctx, b, st, span, "a database file which exists is not opened", "eq", "", App("p:exists", path), FALSE)
        return may_fail(E, b, st, App("conn"), opened=True)
    if name in ("transaction", "transaction_with_behavior", "unchecked_transaction", "savepoint", "new", "new_unchecked"):
        return begin(E, st, App("txn"), ctx, b, span)
    if name in ("prepare", "prepare_cached", "prepare_with_flags"):
        return may_fail(E, b, st, App("stmt", E.P.D(E, st, args[1])))
    if name == "execute" and "Statement" in p:
        q = E.P.D(E, st, args[0])
        return execute(E, text_of(q.a[1][0]) if q.k == "app" and q.a[0] == "stmt" else None, params(E, st, args[1]), st, ctx, b, span)
    if name == "insert" and "Statement" in p:
        q = E.P.D(E, st, args[0])
        return execute(E, text_of(q.a[1][0]) if q.k == "app" and q.a[0] == "stmt" else None, params(E, st, args[1]), st, ctx, b, span)
    if name == "execute":
        return execute(E, text_of(E.P.D(E, st, args[1])), params(E, st, args[2]), st, ctx, b, span)
    if name == "execute_batch":
        sql = text_of(E.P.D(E, st, args[1]))
        sts = [(UNIT, st)]
        out = []
        parts = [x for x in (sql or "").split(";") if x.strip()] if sql is not None else [None]
        for x in parts:
            nxt = []
            for _, s in sts:
                for v, s2 in execute(E, x, [], s, ctx, b, span):
                    (nxt if v.a[1] == 0 else out).append((v, s2))
            sts = nxt
        return out + [(Ok(UNIT), s) for _, s in sts]
    if name == "commit":
        return commit(E, st, UNIT, ctx, b, span)
    if name == "rollback":
        return may_fail(E, b, st, UNIT, txn=False, lost=True)
    if name == "finish":
        return may_fail(E, b, st, UNIT, txn=False, lost=True)
    if name == "set_drop_behavior":
        v = E.P.D(E, st, args[1])
        kind = v.a[1] if v.k == "agg" else None
        if kind != 0:
            need(E, ctx, b, st, span, "a transaction which is dropped is rolled back", False if kind in (1, 2) else None, "the drop behaviour is changed")
        return [(UNIT, st)]
    if name.startswith("pragma"):
        a = [text_of(E.P.D(E, st, x)) for x in args]
        u = [x.lower() for x in a if x]
        if any(x == "journal_mode" for x in u) and any(x in ("off", "memory") for x in u) or "synchronous" in u and "off" in u:
            need(E, ctx, b, st, span, "the database keeps a journal", False, "pragma %s" % " ".join(u))
        return [(Ok(Sym("pragma")), st), (Err(Sym("error")), st)]
    return None


def final(E, ctx, b, st, span):
    c = st.ghost
    need(E, ctx, b, st, span, "success is reported only after the commit", c.committed == 1, "nothing has been committed")
    need(E, ctx, b, st, span, "an error is reported", not c.failed, "an error of the input, of the conversion to JSON or of the database is not reported")


def judge(E, iid, rets, res, opts):
    E.search_left = 60
    for v, st in rets:
        c = equal.Cmp(E, st)
        d = Discr(E.P.D(E, st, v))
        err = c.eq(st.facts, d, Int(1))
        if err is True:
            continue
        if c.eq(st.facts, TRUE, FALSE) is True:
            continue
        g_ = st.ghost
        for label, ok, why in (("success is reported only after the commit", g_.committed == 1, "nothing has been committed when Ok is returned"),
                               ("an error is reported", not g_.failed, "an error of the input, of the conversion to JSON or of the database is not reported"),
                               ("a whole input", g_.ended, "the input has not been read to its end when Ok is returned")):
            put(E, res, st, label, ok if ok or err is False else None, why, {})
    for kind, ctx, bb, st, kw in E.log:
        if kind != "sql":
            continue
        c = equal.Cmp(E, st)
        if c.eq(st.facts, TRUE, FALSE) is True:
            continue
        ok, why = kw["ok"], kw["why"]
        first = kw["label"].startswith("a database file")
        if ok == "eq":
            a, x = kw["vals"]
            r = c.eq(st.facts, a, x)
            why = "%s /= %s: %s" % (fmt(a)[:200], fmt(x)[:200], c.why)
            ok = laws.shown(E, iid, st, a, x, r, c)
            if ok is False and r is None:
                why = c.why
            if ok is None and first:
                # nothing that was asked about the file on this path says that it does not exist
                ok = False
        put(E, res, st, kw["label"], ok, why, kw, ctx)


def feasible(E, st):
    """nothing speaks against the path: what is not known about its conditions does not depend on what is followed here"""
    c = equal.Cmp(E, st)
    for t in st.facts:
        if t.k in ("at", "way") or c.unresolved(t) is None:
            continue
        sub = list(equal.subterms(t))
        if t.k == "app" and t.a[0] in ("rem", "lt", "le") or t.k in ("lt", "le"):
            # a counter which got to some number
            if all(x.k in ("mu", "int", "bool", "poly", "app") and (x.k != "app" or x.a[0] in ("rem", "lt", "le")) for x in sub):
                continue
        if not any(x.k == "app" and E.is_unmodelled(x.a[0]) for x in sub):
            return False
        if any(x.k == "app" and x.a[0] in TRACKED or x.k == "sym" and x.a[0] in TRACKED for x in sub):
            return False
    return True


TRACKED = ("id of", "tags of", "json", "broken json", "conn", "txn", "stmt", "reader", "error", "bad input", "rows")


def put(E, res, st, label, ok, why, kw, ctx=None):
    if os.environ.get("SQLDBG") and ok is not True:
        print("   [", label, ok, why, [fmt(t)[:160] for t in st.facts if t.k not in ("at", "way")])
    if ok is False and not feasible(E, st):
        ok, why = None, "unknown condition: %s; %s" % (laws.unclear(E, st), why)
    laws.add(res, label, ok, why, E, kw, laws.place_of(E, ctx) if ctx is not None else None)


def both(F, n, i, limit):
    r = laws.run(F, n, i, OPTS, limit)
    c = laws.run(F, n, i, CUT, limit)
    c["law"] = c["law"] + ", the first rounds"
    return [r, c]


def first_rounds(E, iid, rets, res, opts):
    """the first rounds of each loop taken one by one, without an approximation: only what goes wrong there counts"""
    judge(E, iid, rets, res, opts)
    res["undecided"] = []
    res["obligations"] = [o for o in res["obligations"] if o[1] is False]


CUT = {"pat": "main", "hooks": hook, "start": start, "judge": first_rounds, "rounds": 3, "cut": True}
OPTS = {"pat": "main", "hooks": hook, "start": start, "judge": judge}
