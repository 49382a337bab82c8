"""Runs the laws (functions of the probe crate) and says which of their statements hold."""
import signal, time, traceback
from term import *
import ai, equal, xmlout, valuate


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def engine(F, opts):
    E = ai.Engine(F, hooks=opts.get("hooks"))
    E.rounds = opts.get("rounds", 0)
    E.cut = opts.get("cut", False)
    if opts.get("setup"):
        opts["setup"](E)
    return E


def ours(E, iid):
    return E.inst[iid]["crate"] in ("osmio", "export")


def place_of(E, ctx):
    """the innermost function of the library the context is in, and the call stack inside the library"""
    out = []
    for i, _ in E.where(ctx):
        ins = E.inst[i]
        if ins["crate"] in ("osmio", "export"):
            out.append("%s (%s)" % (ins["path"], ins["span"].replace("/repo/", "")))
    return out


def fn_key(E, ctx):
    for i, _ in E.where(ctx):
        ins = E.inst[i]
        if ins["crate"] == "osmio":
            return ins["path"]
    return "law"


def cause(st):
    """the library functions the last decision on the path depends on"""
    fs = [t for t in st.facts if t.k not in ("at", "way")]
    out, todo, seen = set(), fs[-1:], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.k == "app":
            out.add(str(t.a[0]).replace("p:", ""))
        todo.extend(x for a in t.a for x in (a if isinstance(a, tuple) else (a,)) if hasattr(x, "k") and hasattr(x, "a"))
    return ", ".join(sorted(out))


def run(F, name, iid, opts, limit=200):
    """-> dict: obligations [(label, verdict, why)], findings, functions, ..."""
    t0 = time.time()
    for part, more in opts.get("by", {}).items():
        if part in name:
            opts = {**opts, **more}
    E = engine(F, opts)
    res = {"law": name, "obligations": [], "findings": [], "functions": [], "undecided": [], "error": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        st = ai.State()
        args = E.sym_args(iid, st)
        if opts.get("start"):
            st, args = opts["start"](E, iid, args, st)
        rets = E.run_root(iid, args, st)
        judge = opts.get("judge", judge_laws)
        judge(E, iid, rets, res, opts)
        signal.alarm(0)
    except Timeout:
        res["error"] = "time limit"
    except RecursionError:
        res["error"] = "recursion"
    except Exception as e:
        res["error"] = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().splitlines()[-3][:150])
    finally:
        signal.alarm(0)
    res["functions"] = sorted(set("%s|%s" % (E.inst[i]["path"], E.inst[i]["span"].replace("/repo/", "")) for i in E.visited if ours(E, i)))
    res["steps"] = E.steps
    res["unmodelled"] = {str(k)[:120]: v for k, v in E.unmodelled.items()}
    res["wall"] = round(time.time() - t0, 2)
    return res


def shown(E, iid, st, a, b, r, c):
    """an answer which is not known may be settled by an interpretation of the arguments which tells a and b apart"""
    if r is not None:
        return r
    if E.search_left <= 0:
        return None
    t0 = time.time()
    w, why = valuate.witness(E, iid, st, a, b, until=t0 + min(12, E.search_left))
    E.search_left -= time.time() - t0
    if w is None:
        return None
    c.why = "for example with %s: %s  /=  %s" % (w, fmt(a)[:200], fmt(b)[:200])
    return False


def values_of_json(t):
    """the values a JSON text is of, if it is one on every path"""
    if t.k == "phi":
        l = [(e, values_of_json(x)) for e, x in t.a[1]]
        return Phi(t.a[0], l) if all(x is not None for _, x in l) else None
    if t.k == "app" and t.a[0] == "json":
        return t.a[1][0]
    if t.k == "str" and t.a[0] == "{}":
        return Agg("serde_json::value::Value", 5, (Agg("array", 0, ()),))
    return None


def judge_laws(E, iid, rets, res, opts):
    law = E.inst[iid]["path"]
    E.search_left = 60
    reached = {}
    for kind, ctx, bb, st, kw in E.log:
        if kind in ("same", "holds"):
            vals = kw["vals"]
            label = vals[0].a[0] if vals[0].k == "str" else "?"
            a, b = vals[1], (vals[2] if kind == "same" else TRUE)
            if kind == "same":
                x, y = values_of_json(a), values_of_json(b)
                if x is not None and y is not None:
                    a, b = x, y     # different values have different texts
            c = equal.Cmp(E, st)
            r = c.eq(st.facts, a, b)
            if r is False and not clear(E, st):
                c.why = "reached on an unknown condition: %s: %s" % (unclear(E, st), c.why)
                r = None
            r = shown(E, iid, st, a, b, r, c)
            add(res, label, r, c.why, E, kw)
            reached[label] = 1
        elif kind == "never":
            label = kw["vals"][0].a[0]
            c = equal.Cmp(E, st)
            r = c.eq(st.facts, TRUE, FALSE)
            if r is True:
                continue        # cannot be reached
            if not clear(E, st):
                r = None
                c.why = None
            r = shown(E, iid, st, TRUE, FALSE, r, c)
            add(res, label, r, "this point is reached %s" % (c.why or "") if r is False else "unknown condition: %s" % (unclear(E, st) or c.why), E, kw)
        elif kind in opts.get("events", ()):
            label, why = event(E, kind, st, kw)
            c = equal.Cmp(E, st)
            r = c.eq(st.facts, TRUE, FALSE)
            if r is True:
                continue
            if kind == "raw" and kw["maybe"] and r is False:
                # its characters were looked at first: the compared texts tell
                r = None
            if kind == "dup":
                r = c.eq(st.facts, kw["old"], xmlout.NONE)
            elif kind == "whole":
                r = True if kw["ok"] else False if clear(E, st) else None
            elif not clear(E, st) or kw.get("what") is not None and not isinstance(kw["what"], str) and c.unresolved(kw["what"]) is not None:
                r = None
            if r is not None or kind not in ("dup",):
                add(res, label, r, why, E, kw, place_of(E, ctx))
        elif (kind == "panic" or kind == "bounds" and opts.get("bounds")) and (opts.get("panics", True) is True or opts["panics"] and opts["panics"] in law):
            who = fn_key(E, ctx)
            if who == "law":
                continue
            c = equal.Cmp(E, st)
            r = c.eq(st.facts, TRUE, FALSE)
            if r is True:
                continue
            label = "no panic in %s (%s)" % (who, kw["callee"].split("::")[-1])
            if not clear(E, st):
                r = None
                c.why = None
            r = shown(E, iid, st, TRUE, FALSE, r, c)
            add(res, label, r, "%s is reached %s" % (kw["callee"], c.why or ""), E, kw, place_of(E, ctx))
            if r is False:
                # the same panic, named by what came before it: this stays when the call is moved to another function
                after = cause(st)
                res["findings"][-1]["alts"] = ["panic within %s%s" % (w.rsplit(" (", 1)[0], " after " + after if after else "") for w in place_of(E, ctx)]
    if not rets and not any(k == "never" for k, *_ in E.log):
        if "_stops" in law.split("::")[-1] and any(k == "panic" for k, *_ in E.log):
            # what the law asks for is that the call does not return
            add(res, "stops", True, "", E, {})
        else:
            add(res, "returns", False, "no call of this law returns", E, {})


def event(E, kind, st, kw):
    if kind == "raw":
        return "%s of <%s>: %s" % (kw["attr"], kw["elem"], kw["why"]), fmt(kw["what"])[:300]
    if kind == "markup":
        return kw["key"], "%s: %s" % (kw["why"], fmt(kw["what"])[:300] if kw.get("what") is not None else "")
    if kind == "dup":
        return "%s is written once" % kw["what"], "it may be written twice"
    if kind == "vocab":
        return "%s" % kw["what"], "nothing reads it"
    if kind == "whole":
        return kw["vals"][0].a[0], "elements are left open, or the document goes on"
    if kind == "afterfail":
        return "nothing is written after a failure", "the writer goes on after a write has failed"
    if kind == "short":
        return "every byte is written", "write() may write a part only"
    return kind, ""


def clear(E, st):
    """everything the facts are about is understood"""
    c = equal.Cmp(E, st)
    return not any(c.unresolved(t) is not None for t in st.facts if t.k not in ("at", "way"))


def add(res, label, r, why, E, kw, where=None):
    res["obligations"].append((label, r, None if r is True else why))
    if r is False:
        res["findings"].append({"label": label, "why": why, "where": where or [], "span": kw.get("span")})
    elif r is None:
        res["undecided"].append({"label": label, "why": why})


def unclear(E, st):
    c = equal.Cmp(E, st)
    for t in st.facts:
        if t.k not in ("at", "way"):
            u = c.unresolved(t)
            if u is not None:
                return "%s in %s" % (fmt(u)[:100], fmt(t)[:200])
