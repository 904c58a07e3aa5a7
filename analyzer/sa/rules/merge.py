"""Re-declaring an attribute: what was given last wins, everything else is kept."""
from base import *
import apply as ap

PLAIN = ["attribute_type", "mapping", "encoding", "format", "unit", "entry_codes", "entry_codes_mapping", "cardinality", "conformance", "standards", "links", "framings"]
BYLANG = ["labels", "category_labels", "informations", "entries"]


def fields(r):
    return [f["n"] for f in r.F.adt(ATTR)["v"][0]["f"]]


def both(r, key, entry, a, b, want, what):
    """run on Attribute::merge and on OCABox::add_attribute"""
    F = r.F
    if entry == "merge":
        f = r.method("attribute::Attribute", "merge")
        outs = r.run(f, [Ref(a, "self"), Ref(b, "other")])
        got = [E(st, "self") for st, _ in outs]
        want_v = want
    else:
        f = r.method("oca::OCABox", "add_attribute")
        outs = r.run(f, [Ref(ap.box(r, [a, ap.attr(r, sym("z"))]), "self"), b])
        got = [E(st, "self") for st, _ in outs]
        want_v = ap.box(r, [want, ap.attr(r, sym("z"))])
    w = r.where(f)
    if not got:
        r.ob(key, False, w, f"{what}: no path returns")
    for g in got:
        if not same_val(g, want_v):
            if entry == "merge" and g is not None and g[0] == "a":
                d = [n for n in fields(r) if not same_val(field(F, g, n), field(F, want_v, n))]
                r.ob(key, False, w, f"{what}: " + "; ".join(f"{n} is {pv(F, field(F, g, n))}, expected {pv(F, field(F, want_v, n))}" for n in d)[:700])
            else:
                r.ob(key, False, w, f"{what}: found {pv(F, g)[:700]}")
            return
    r.ob(key, bool(got), w)


def run(r):
    F = r.F
    names = fields(r)
    known = set(PLAIN) | set(BYLANG) | {"name", "is_flagged", "condition", "dependencies"}
    for n in names:
        r.ob("fields:" + n, n in known, "Attribute", f"attribute field `{n}` has no merge specification")
    nm = sym("a")
    base = {n: some(S("!*old_" + n)) for n in PLAIN}
    base.update({n: some(mp((S("!l1"), S("!*old1_" + n)), (S("!l2"), S("!*old2_" + n)))) for n in BYLANG})
    base.update(condition=some(S("!*old_condition")), dependencies=some(S("!*old_dependencies")))
    A = lambda **kw: ap.attr(r, nm, **dict(dict(attribute_type=NONE), **kw))
    for entry in ("merge", "add_attribute"):
        full = A(**base)
        # nothing given: nothing changes
        both(r, f"{entry}:keep-all", entry, full, A(), full, "an attribute with no new metadata")
        for n in PLAIN:
            both(r, f"{entry}:replace:{n}", entry, full, A(**{n: some(S("!*new"))}), A(**dict(base, **{n: some(S("!*new"))})), f"new {n} over an existing one")
            both(r, f"{entry}:add:{n}", entry, A(), A(**{n: some(S("!*new"))}), A(**{n: some(S("!*new"))}), f"first {n}")
        for n in BYLANG:
            nv = mp((S("!l2"), S("!*new2")), (S("!l3"), S("!*new3")))
            res_ = mp((S("!l1"), S("!*old1_" + n)), (S("!l2"), S("!*new2")), (S("!l3"), S("!*new3")))
            both(r, f"{entry}:replace:{n}", entry, full, A(**{n: some(nv)}), A(**dict(base, **{n: some(res_)})), f"new {n} in one existing and one new language")
            both(r, f"{entry}:add:{n}", entry, A(), A(**{n: some(nv)}), A(**{n: some(nv)}), f"first {n}")
        cond = dict(condition=some(S("!c")), dependencies=some(S("!d")))
        both(r, f"{entry}:replace:condition", entry, full, A(**cond), A(**dict(base, **cond)), "new condition over an existing one")
        both(r, f"{entry}:add:condition", entry, A(), A(**cond), A(**cond), "first condition")
        everything = {n: some(S("!*new_" + n)) for n in PLAIN}
        everything.update({n: some(mp((S("!l1"), S("!*new1_" + n)), (S("!l2"), S("!*new2_" + n)))) for n in BYLANG})
        everything.update(cond)
        both(r, f"{entry}:replace-all", entry, full, A(**everything), A(**everything), "all metadata re-declared")
        both(r, f"{entry}:flag", entry, A(), A(is_flagged=TRUE), A(is_flagged=TRUE), "flagging")
        both(r, f"{entry}:keep-flag", entry, A(is_flagged=TRUE), A(), A(is_flagged=TRUE), "an attribute that was flagged before")
