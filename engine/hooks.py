"""Assumptions and event recording the laws of one property need."""
from term import *
import ai


def fresh_keys(E, callee, args, st, ctx, b, span):
    """set_tag is given a key the object does not have yet (the keys of the source object differ)"""
    p = callee.get("rpath") or callee.get("path") or ""
    if not p.endswith("::set_tag") or E.assume is not None:
        return None
    i = callee.get("inst")
    if i is None or "body" not in E.inst[i]:
        return None
    E.assume = lambda t: FALSE if t.k == "app" and t.a[0] == "eq" and not is_const(t.a[1][1]) else None
    try:
        return E.run_inst(i, args, st, E.ctx("call", ctx, b, i))
    finally:
        E.assume = None
