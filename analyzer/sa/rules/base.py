"""Obligations, scenarios and comparison helpers shared by all rules."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import interp
from interp import *
from vals import *

OA = "oca_ast_semantics::ast::"
OB = "oca_bundle_semantics::"
ATTR = OB + "state::attribute::Attribute"


class Missing(Exception):
    """a construct the rule is anchored in is no longer there"""


class R:
    """one run of one property's rule"""

    def __init__(self, F, pid, tier="quick"):
        self.F = F
        self.pid = pid
        self.tier = tier
        self.obs = []           # (key, ok, where, msg)
        self.fns = {}           # analysed function path -> contexts
        self.steps = 0
        self.sites = 0
        self.unmodelled = {}
        self.notes = []

    # ---- obligations
    def ob(self, key, cond, where="", msg=""):
        self.obs.append((key, bool(cond), str(where), msg))
        return bool(cond)

    def eq(self, key, got, want, where="", what=""):
        ok = same_val(got, want)
        return self.ob(key, ok, where, "" if ok else f"{what}: " + "; ".join(vdiff(self.F, got, want))[:1500])

    # ---- anchors
    def fn(self, suffix, crate=None, trait=None):
        fs = [f for f in self.F.find(suffix) if f.isfn and (crate is None or f.crate == crate)]
        if len(fs) != 1:
            raise Missing(f"{len(fs)} functions match `{suffix}`")
        return fs[0]

    def method(self, adt, name, trait=None, targ=None):
        fs = self.F.method(adt, name, trait)
        if targ is not None:
            fs = [f for f in fs if any(targ in t["s"] for t in f.targs)]
        if len(fs) != 1:
            raise Missing(f"{len(fs)} methods match `{adt}::{name}`" + (f" of {trait}" if trait else ""))
        return fs[0]

    # ---- analysis of one function under given abstract arguments
    def run(self, fn, args, budget=60.0, hooks=(), setup=None, st=None, hash_rev=False, parts=None):
        """-> list of (state, value, ip); args may be callables (ip, st) -> value"""
        ip = Ip(self.F, hooks=list(hooks), budget=budget)
        ip.hash_rev = hash_rev
        if parts:
            ip.part_limit = parts
        st = st or St()
        vals = []
        for i, a in enumerate(args):
            if isinstance(a, Ref):
                vals.append(ip.alloc(st, a.name, a.v))
            else:
                vals.append(a)
        outs = ip.call_fn(fn, vals, st, ("top", fn.h))
        self.steps += ip.steps
        for k, v in ip.analysed.items():
            self.fns[k] = self.fns.get(k, 0) + v
        for k, v in ip.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        self.ip = ip
        return outs

    def where(self, fn):
        sp = getattr(fn.body, "sp", "")
        return f"{fn.p} ({self.loc(fn)})"

    def loc(self, fn):
        sp = fn.body.sp
        return str(sp[0]) + ":" + str(sp[1]) if isinstance(sp, (list, tuple)) else str(sp)


class Ref:
    """an argument passed by reference"""

    def __init__(self, v, name="arg"):
        self.v, self.name = v, name


def E(st, name="arg"):
    """value of a by-reference argument after the call"""
    return st.get(("E", name), 0)


def vdiff(F, a, b, path="", out=None, limit=6):
    """where found value a differs from expected value b"""
    out = [] if out is None else out
    if len(out) >= limit or same_val(a, b):
        return out
    if a is not None and b is not None and a[0] == b[0]:
        if a[0] == "a" and a[1] == b[1] and [i for i, _ in a[2]] == [i for i, _ in b[2]]:
            ad = F.adts.get(a[1])
            for (i, fa), (_, fb) in zip(a[2], b[2]):
                if len(fa) == len(fb):
                    for j, (x, y) in enumerate(zip(fa, fb)):
                        n = ad["v"][i]["f"][j]["n"] if ad and a[1] not in (OPTION, RESULT) else ""
                        vdiff(F, x, y, path + ("." + n if n else ""), out, limit)
            if out:
                return out
        if a[0] == "t" and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                vdiff(F, x, y, path + f"[{i}]", out, limit)
            if out:
                return out
        if a[0] == "m":
            da, db = dict(a[1]), dict(b[1])
            if len(da) == len(a[1]) and len(db) == len(b[1]):
                for k in db:
                    if k not in da:
                        out.append(f"{path}: no entry {pv(F, k)}, expected {pv(F, db[k])[:200]}")
                    else:
                        vdiff(F, da[k], db[k], path + f"[{pv(F, k)}]", out, limit)
                for k in da:
                    if k not in db:
                        out.append(f"{path}: unexpected entry {pv(F, k)}: {pv(F, da[k])[:200]}")
                return out
    out.append((path + ": " if path else "") + f"expected {pv(F, b)[:600]}, found {pv(F, a)[:600]}")
    return out


def same_val(a, b):
    return canon(a) == canon(b)


def canon(v):
    """order of exact maps does not matter"""
    if v is None:
        return None
    t = v[0]
    if t == "m":
        return ("m", frozenset((canon(k), canon(x)) for k, x in v[1]))
    if t == "t":
        return ("t", tuple(canon(x) for x in v[1]))
    if t == "a":
        return ("a", v[1], tuple((i, tuple(canon(x) for x in fs)) for i, fs in v[2]))
    if t == "cat":
        return ("cat", tuple(canon(x) for x in v[1]))
    if t == "or":
        return ("or", frozenset(canon(x) for x in v[1]))
    if t == "c":
        return ("c", canon(v[1]), canon(v[2]))
    return v


def msym(f, *l):
    """value made by library function f out of the labelled values"""
    return S("~" + f, *l)
