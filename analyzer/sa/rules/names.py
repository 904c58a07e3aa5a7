"""OCAFILEs built through the facade: references by name, the base a FROM names, the text given back."""
from base import *
import codec
import facade as fc
import ocafile as of
import seal as se
import sermodels as sm
import steps
from ocafile import vt, norm

ERR = "oca_rs::facade::build::Error"
VERR = "oca_rs::facade::build::ValidationError"


def T(tpl, **sub):
    """text from a template; <x> is the identifier given as x"""
    out = []
    for p in re.split(r"(<\w+>)", tpl):
        out.append(sub[p[1:-1]] if re.fullmatch(r"<\w+>", p) else of.T(p) if p else K(""))
    return text(*out)


import re


def run(r, key, fac, name, t, extra=(), total=True, hash_rev=False, noself=False):
    """-> [(facade after, value, other by-reference arguments)]"""
    f = fc.meth(r, name)
    outs = r.run(f, ([] if noself else [Ref(fac, "self")]) + [t] + list(extra), parts=300, hash_rev=hash_rev)
    if total:
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics if not fc.quiet(k)})
        r.ob(key + ":total", not pn, r.where(f), f"{name} can panic: {pn} on {pv(r.F, t)[:200]}")
    return [(E(s, "self"), v, s) for s, v in outs]


def built(r, key, fac, t, name="build_from_ocafile", extra=()):
    """(facade after, value) of a text that must be accepted"""
    F = r.F
    outs = run(r, key, fac, name, t, extra)
    oks = [(e, only(v, 0), s) for e, v, s in outs]
    good = bool(oks) and all(v is not None and same_val(v, oks[0][1]) and same_val(e, oks[0][0]) for e, v, _ in oks)
    r.ob(key + ":built", good, r.where(fc.meth(r, name)), f"must be built, the same way on every path: {pv(F, t)[:300]}: " + "; ".join(pv(F, v)[:300] for _, v, _ in outs))
    return oks[0] if good else (None, None, None)


def refused(r, key, fac, t, name="build_from_ocafile", extra=()):
    """the errors of a text that must be refused, with the stores as they were"""
    F = r.F
    outs = run(r, key, fac, name, t, extra)
    w = r.where(fc.meth(r, name))
    es = [only(v, 1) for _, v, _ in outs]
    r.ob(key + ":refused", bool(es) and all(e is not None for e in es), w, f"must be an error: {pv(F, t)[:300]}: " + "; ".join(pv(F, v)[:300] for _, v, _ in outs))
    for e, _, s in outs:
        r.eq(key + ":unchanged", e, fac, w, "a text that is refused must leave the stores as they were")
    return es


def unknown_name(r, n):
    return vec(variant(r.F, VERR, "UnknownRefn", of.T(n)))


def wrap(r, es):
    return variant(r.F, ERR, "ValidationError", es)


def table(F, e, ns, store="db"):
    return mget(field(F, field(F, e, store), "db"), K(ns)) if e is not None else None


def without(F, e, ns):
    """the stores without one table"""
    db = field(F, field(F, e, "db"), "db")
    return (mp(*[(k, v) for k, v in db[1] if k != K(ns)]), field(F, e, "db_cache"))


FIRST = "-- name={n}\nADD ATTRIBUTE {a}=Text\n"
SECOND = "-- name={m}\nADD ATTRIBUTE {a}=Numeric {b}=Text\nADD UNIT ATTRS {a}=\"{*u}\"\n"

# (key, text with names, the same text with identifiers in place of the names)
USES = [
    ("attribute", "ADD ATTRIBUTE {x}=refn:{n}\n"),
    ("array", "ADD ATTRIBUTE {x}=Array[refn:{n}]\n"),
    ("arrays", "ADD ATTRIBUTE {x}=Array[Array[Array[refn:{n}]]] {y}=Array[Array[refn:{m}]]\n"),
    ("several", "ADD ATTRIBUTE {w}=Text {x}=refn:{n} {y}=Array[Text] {z}=refn:{m} {v}=refn:{n}\n"),
    ("later", "ADD ATTRIBUTE {w}=Text\nADD LABEL en ATTRS {w}=\"{*l}\"\nADD ATTRIBUTE {x}=refn:{m}\nADD ATTRIBUTE {y}=refn:{n}\n"),
    ("link", "ADD ATTRIBUTE {w}=Text\nADD LINK refn:{n} ATTRS {w}=\"{*l}\"\n"),
    ("links", "ADD ATTRIBUTE {w}=Text {x}=refn:{m}\nADD LINK refn:{n} ATTRS {w}=\"{*l}\" {x}=\"{*k}\"\nADD LINK refn:{m} ATTRS {w}=\"{*k}\"\n"),
    ("removed", "ADD ATTRIBUTE {w}=Text {v}=Text\nREMOVE ATTRIBUTE {w}\nADD ATTRIBUTE {x}=refn:{n}\n"),
    ("removed-link", "ADD ATTRIBUTE {w}=Text {v}=refn:{n}\nADD LINK refn:{n} ATTRS {w}=\"{*l}\"\nREMOVE ATTRIBUTE {v}\nADD META en PROPS {k}=\"{*p}\"\nADD LINK refn:{m} ATTRS {w}=\"{*k}\"\n"),
    ("repeated", "ADD ATTRIBUTE {x}=refn:{n} {y}=refn:{n}\nREMOVE ATTRIBUTE {x}\nADD ATTRIBUTE {z}=refn:{m}\n"),
    ("mixed", "ADD ATTRIBUTE {x}=refs:{SAIDs} {y}=refn:{n}\n"),
    ("named", "-- name={o}\nADD ATTRIBUTE {x}=refn:{n}\n"),
    ("renamed", "-- name={n}\nADD ATTRIBUTE {x}=refn:{n}\n"),
]


def said(r, b):
    return fc.said(r, b)


def stores(r):
    """a facade in which {n} and {m} are known"""
    fac = fc.facade(r)
    f1, b1, _ = built(r, "names:first", fac, T(FIRST))
    if f1 is None:
        return None
    f2, b2, _ = built(r, "names:second", f1, T(SECOND))
    if f2 is None:
        return None
    return f2, b1, b2


def byref(s, b1, b2):
    return T(s.replace("refn:{n}", "refs:<n>").replace("refn:{m}", "refs:<m>"), n=b1, m=b2)


def refs(r):
    F = r.F
    w = r.where(fc.meth(r, "build_from_ocafile"))
    st = stores(r)
    if st is None:
        return
    f2, b1, b2 = st
    s1, s2 = said(r, b1), said(r, b2)
    r.ob("names:different", s1 is not None and s1 != s2, w, "two bundles with different content must have different identifiers")
    r.eq("names:saved", table(F, f2, "oca_refs"), mp((of.T("{n}"), s1), (of.T("{m}"), s2)), w, "names saved with the identifiers of their bundles")
    all_refs(r, "names", f2, {of.T("{n}"): s1, of.T("{m}"): s2})
    for k, t in USES:
        key = "names:" + k
        fa, ba, _ = built(r, key, f2, T(t))
        fb, bb, _ = built(r, key + ":identifiers", f2, byref(t, s1, s2))
        if fa is None or fb is None:
            continue
        fc.same_bundle(r, key + ":bundle", ba, bb, w, "the bundle built from names, compared with the one from identifiers")
        r.eq(key + ":stores", fa, fb, w, "what is stored for a text with names, compared with the one from identifiers")
        want = {of.T("{n}"): s1, of.T("{m}"): s2}
        nm = re.match(r"-- name=(\{\w+\})", t)
        if nm:
            want[of.T(nm.group(1))] = said(r, ba)
        tb = table(F, fa, "oca_refs")
        r.ob(key + ":table", tb is not None and tb[0] == "m" and dict(tb[1]) == want, w, f"names known afterwards: {pv(F, tb)}, expected { {pv(F, a): pv(F, b) for a, b in want.items()} }")
        used = [of.T("{n}")] * ("refn:{n}" in t) + [of.T("{m}")] * ("refn:{m}" in t)
        # the same with names that are not known
        for i, u in enumerate(("{n}", "{m}")):
            if "refn:" + u not in t:
                continue
            tu = T(t.replace("refn:" + u, "refn:{q}"))
            es = refused(r, f"{key}:unknown:{i}", f2, tu)
            for e in es:
                r.eq(f"{key}:unknown:{i}:error", e, wrap(r, unknown_name(r, "{q}")), w, "the error names the reference that is not known")
        # validating gives the same and stores the name only
        fv, bv, _ = built(r, key + ":validated", f2, T(t), name="validate_ocafile")
        if fv is not None:
            fc.same_bundle(r, key + ":validated:bundle", field(F, bv, "oca_bundle"), bb, w, "the bundle validated")
            r.ob(key + ":validated:stores", same_val(without(F, fv, "oca_refs")[0], without(F, f2, "oca_refs")[0]) and same_val(without(F, fv, "oca_refs")[1], without(F, f2, "oca_refs")[1]), w, "validating must store nothing but the name")
            r.eq(key + ":validated:names", table(F, fv, "oca_refs"), tb, w, "names known after validating")
            r.eq(key + ":validated:same", fv if fa is None else step_build(r, key, fv, bv), fa, w, "building what was validated, compared with building the text")
    # a name given again means the new bundle
    f3, b3, _ = built(r, "names:again", f2, T("-- name={n}\nADD ATTRIBUTE {c}=Boolean\n"))
    if f3 is not None:
        r.eq("names:again:table", table(F, f3, "oca_refs"), mp((of.T("{n}"), said(r, b3)), (of.T("{m}"), s2)), w, "a name given again means the latest bundle")
        f4, b4, _ = built(r, "names:again:used", f3, T("ADD ATTRIBUTE {x}=refn:{n}\n"))
        f5, b5, _ = built(r, "names:again:identifier", f3, T("ADD ATTRIBUTE {x}=refs:<n>\n", n=said(r, b3)))
        if f4 is not None and f5 is not None:
            fc.same_bundle(r, "names:again:bundle", b4, b5, w, "the bundle built from a name given again")
    # a file that is refused does not name anything
    refused(r, "names:refused", f2, T("-- name={o}\nADD ATTRIBUTE {x}=Text\nADD LABEL en ATTRS {y}=\"{*l}\"\n"))
    refused(r, "names:refused:validate", f2, T("-- name={o}\nADD ATTRIBUTE {x}=Text\nADD LABEL en ATTRS {y}=\"{*l}\"\n"), name="validate_ocafile")
    refused(r, "names:refused:parse", f2, T("-- name={o}\nADD ATTRIBUTE {x}=\n"))
    # the same with a base
    for nm in ("{o}", "{n}"):
        for k, t in (("label", "ADD LABEL en ATTRS {zz}=\"{*l}\"\n"), ("attribute", "ADD ATTRIBUTE {x}=refn:{q}\n"), ("twice", "FROM <s>\n")):
            for b in ("build_from_ocafile", "validate_ocafile"):
                refused(r, f"names:refused:from:{nm}:{k}:{b}", f2, T(f"-- name={nm}\nFROM <s>\n" + t, s=s2), name=b)
        f3, b3, _ = built(r, f"names:base:{nm}", f2, T(f"-- name={nm}\nFROM <s>\n", s=s2))
        if f3 is not None:
            tb = table(F, f3, "oca_refs")
            want = {of.T("{n}"): s1, of.T("{m}"): s2, of.T(nm): s2}
            r.ob(f"names:base:{nm}:table", said(r, b3) == s2 and tb is not None and tb[0] == "m" and dict(tb[1]) == want, w, f"a file with nothing but FROM names the base: {pv(F, tb)}")
    # a name is not known within the file that gives it
    for e in refused(r, "names:own", fc.facade(r), T("-- name={n}\nADD ATTRIBUTE {x}=refn:{n}\n")):
        r.eq("names:own:error", e, wrap(r, unknown_name(r, "{n}")), w, "the error names the reference that is not known")


def step_build(r, key, fac, bv):
    f = fc.meth(r, "build")
    outs = r.run(f, [Ref(fac, "self"), Ref(bv, "build")])
    es = [E(s, "self") for s, _ in outs]
    return es[0] if es and all(same_val(x, es[0]) for x in es) else None


def all_refs(r, key, fac, want):
    F = r.F
    w, vs, pn, _ = fc.ask(r, fac, "fetch_all_refs")
    r.ob(key + ":listed:total", not pn, w, f"listing the names can panic: {pn}")
    v = fc.one(r, key + ":listed:found", vs, w, "the names must be listed")
    if v is not None:
        r.ob(key + ":listed", v[0] == "m" and dict(v[1]) == want and len(v[1]) == len(want), w, f"names listed: {pv(F, v)}")


def external(r):
    """names of another store"""
    F = r.F
    f = fc.meth(r, "validate_ocafile_with_external_references")
    w = r.where(f)
    st = stores(r)
    if st is None:
        return
    f2, b1, b2 = st
    s1, s2 = said(r, b1), said(r, b2)
    st = lambda *kv: struct(F, fc.MEM, "", db=mp((K("oca_refs"), mp(*kv))))
    # {n} means another bundle there than in the facade
    ext = st((of.T("{n}"), s2), (of.T("{m}"), s1))
    for k, t in USES:
        key = "external:" + k
        fv, bv, s = built(r, key, f2, T(t), name="validate_ocafile_with_external_references", extra=[Ref(ext, "ext")])
        fb, bb, _ = built(r, key + ":identifiers", f2, byref(t, s2, s1), name="validate_ocafile")
        if fv is None or fb is None:
            continue
        r.eq(key + ":bundle", said(r, field(F, bv, "oca_bundle")), said(r, field(F, bb, "oca_bundle")), w, "the bundle validated with external names, compared with the one from identifiers")
        r.eq(key + ":steps", field(F, bv, "steps"), field(F, bb, "steps"), w, "the steps validated with external names, compared with those from identifiers")
        r.eq(key + ":unchanged", fv, f2, w, "validating with external names must leave the stores of the facade as they were")
        want = {of.T("{n}"): s2, of.T("{m}"): s1}
        nm = re.match(r"-- name=(\{\w+\})", t)
        if nm:
            want[of.T(nm.group(1))] = said(r, field(F, bv, "oca_bundle"))
        tb = mget(field(F, E(s, "ext"), "db"), K("oca_refs"))
        r.ob(key + ":names", tb is not None and tb[0] == "m" and dict(tb[1]) == want, w, f"external names afterwards: {pv(F, tb)}")
    for k, t in (("unknown", "-- name={o}\nADD ATTRIBUTE {x}=refn:{q}\n"), ("unknown-there", "-- name={o}\nADD ATTRIBUTE {x}=refn:{n}\n"), ("refused", "-- name={o}\nADD ATTRIBUTE {x}=Text\nADD UNIT ATTRS {y}=\"{*u}\"\n")):
        ext = st() if k == "unknown-there" else st((of.T("{n}"), s2))
        outs = run(r, "external:" + k, f2, "validate_ocafile_with_external_references", T(t), [Ref(ext, "ext")])
        r.ob(f"external:{k}:refused", outs and all(only(v, 1) is not None for _, v, _ in outs), w, f"must be an error: {[pv(F, v)[:200] for _, v, _ in outs]}")
        for e, v, s in outs:
            if k != "refused":
                r.eq(f"external:{k}:error", only(v, 1), unknown_name(r, "{q}" if k == "unknown" else "{n}"), w, "the error names the reference that is not known")
            r.eq(f"external:{k}:unchanged", e, f2, w, "the stores of the facade afterwards")
            r.eq(f"external:{k}:names", E(s, "ext"), ext, w, "a text that is refused must not name anything")
    # a store that answers with something that is no identifier
    ext = st((of.T("{n}"), K("not an identifier")))
    for k, t in (("attribute", "ADD ATTRIBUTE {x}=refn:{n}\n"), ("array", "ADD ATTRIBUTE {x}=Array[refn:{n}]\n"), ("link", "ADD ATTRIBUTE {x}=Text\nADD LINK refn:{n} ATTRS {x}=\"{*l}\"\n")):
        outs = run(r, "external:wrong:" + k, f2, "validate_ocafile_with_external_references", T(t), [Ref(ext, "ext")])
        r.ob(f"external:wrong:{k}:refused", outs and all(only(v, 1) is not None for _, v, _ in outs), w, f"a name that stands for no identifier must be an error: {[pv(F, v)[:200] for _, v, _ in outs]}")


# ------------------------------------------------------------------ extending a stored bundle
BASES = [
    ("attributes", "ADD ATTRIBUTE {a}=Text {b}=Numeric\n"),
    ("full", "ADD ATTRIBUTE {a}=Text {b}=Numeric {c}=Array[Text]\nADD CLASSIFICATION {cl}\nADD FLAGGED_ATTRIBUTES {b}\nADD LABEL en ATTRS {a}=\"{*l}\" {b}=\"{*k}\"\nADD META fr PROPS name=\"{*t}\"\n"
             "ADD UNIT ATTRS {b}=\"{*u}\"\nADD CONFORMANCE ATTRS {a}=M\nADD CARDINALITY ATTRS {c}=\"1-2\"\nADD ENTRY_CODE ATTRS {a}=[\"{*e}\", \"{*f}\"]\nADD ENTRY pl ATTRS {a}={\"{*e}\": \"{*g}\"}\nADD CHARACTER_ENCODING ATTRS {a}=utf-8\nADD FORMAT ATTRS {a}=\"{*r}\"\n"
             "ADD LINK refs:{SAIDk} ATTRS {a}=\"{*h}\"\nADD ATTR_FRAMING id={i} ATTRS {a}={\"http://t/1\": {\"predicate_id\": \"{*p}\", \"framing_justification\": \"{*pj}\"}}\n"),
    ("pairs", "ADD ATTRIBUTE {a}=Text {b}=Numeric {c}=Numeric\nADD LABEL en ATTRS {a}=\"{*l}\" {b}=\"{*k}\"\nADD LABEL fr ATTRS {a}=\"{*m}\"\nADD INFORMATION en ATTRS {a}=\"{*n}\"\nADD INFORMATION pl ATTRS {b}=\"{*o}\"\n"
              "ADD META en PROPS name=\"{*q}\" description=\"{*r}\"\nADD META pl PROPS name=\"{*s}\"\nADD FLAGGED_ATTRIBUTES {a} {b}\nADD UNIT ATTRS {b}=\"{*u}\" {c}=\"{*v}\"\nADD CONDITION ATTRS {a}=\"${{b}} > 3 and ${{c}} < ${{b}}\"\n"
              "ADD LINK refs:{SAIDk} ATTRS {a}=\"{*h}\" {b}=\"{*i}\"\nADD LINK refs:{SAIDl} ATTRS {a}=\"{*j}\"\nADD ENTRY_CODE ATTRS {a}=[\"{*e}\", \"{*f}\"] {b}={\"{*eg}\": [\"{*e}\"]}\nADD ENTRY en ATTRS {a}={\"{*e}\": \"{*g}\"}\nADD ENTRY pl ATTRS {a}={\"{*e}\": \"{*w}\", \"{*f}\": \"{*x}\"}\n"
              "ADD ATTR_FRAMING id={i} ATTRS {a}={\"http://t/1\": {\"predicate_id\": \"{*p}\", \"framing_justification\": \"{*pj}\"}, \"http://t/3\": {\"predicate_id\": \"{*pr}\", \"framing_justification\": \"{*ps}\"}}\n"
              "ADD ATTR_FRAMING id={k} ATTRS {a}={\"http://t/2\": {\"predicate_id\": \"{*pp}\", \"framing_justification\": \"{*pq}\"}}\n"),
]
BASES.append(("refers", "ADD ATTRIBUTE {a}=refs:{SAIDn} {b}=Array[refs:{SAIDo}] {c}=Text\nADD LINK refs:{SAIDk} ATTRS {c}=\"{*h}\"\n"))
BASES.append(("empty", "ADD META en PROPS name=\"{*q}\"\n"))
ALONE = {"refers": ("overlay",), "empty": ("attribute", )}
MORE = [
    ("attribute", "ADD ATTRIBUTE {d}=Boolean\n"),
    ("overlay", "ADD LABEL en ATTRS {a}=\"{*m}\"\n"),
    ("language", "ADD INFORMATION fr ATTRS {a}=\"{*m}\" {b}=\"{*n}\"\n"),
    ("several", "ADD ATTRIBUTE {d}=Boolean {e}=DateTime\nADD LABEL en ATTRS {d}=\"{*m}\" {b}=\"{*n}\"\nADD UNIT ATTRS {d}=\"{*v}\"\nADD META en PROPS name=\"{*o}\"\nADD FLAGGED_ATTRIBUTES {a}\nADD CLASSIFICATION {cm}\n"),
    ("codes", "ADD ENTRY_CODE ATTRS {b}=[\"{*x}\"]\nADD ENTRY en ATTRS {b}={\"{*x}\": \"{*y}\"}\n"),
    ("link", "ADD LINK refs:{SAIDm} ATTRS {b}=\"{*x}\"\n"),
    ("same", "ADD CONFORMANCE ATTRS {a}=M\n"),
]


def froms(r):
    F = r.F
    w = r.where(fc.meth(r, "build_from_ocafile"))
    for bk, bt in BASES:
        f1, b1, _ = built(r, f"from:{bk}", fc.facade(r), T(bt))
        if f1 is None:
            continue
        s1 = said(r, b1)
        for mk, mt in MORE:
            key = f"from:{bk}:{mk}"
            if mk not in ALONE.get(bk, (mk,)):
                continue
            if bk not in ALONE and r.tier == "quick" and (mk in ("same", "language", "codes") if bk == "attributes" else mk in ("attribute", "overlay") if bk == "full" else mk != "same"):
                continue
            fa, ba, _ = built(r, key, f1, T("-- name={nm}\n# a comment\nFROM <s>\n" + mt, s=s1))
            fb, bb, _ = built(r, key + ":whole", f1, T("-- name={nm}\n" + bt + mt))
            if fa is None or fb is None:
                continue
            fc.same_bundle(r, key + ":bundle", ba, bb, w, "a stored bundle extended, compared with one file with all the instructions")
            r.eq(key + ":names", table(F, fa, "oca_refs"), mp((of.T("{nm}"), said(r, ba))), w, "the name given to the extended bundle")
            for q in ("get_oca_bundle_steps",):
                _, va, pa, _ = fc.ask(r, fa, q, said(r, ba))
                _, vb, pb, _ = fc.ask(r, fb, q, said(r, bb))
                r.ob(key + ":history:total", not pa and not pb, w, f"the history can panic: {pa} {pb}")
                a, b = fc.one(r, key + ":history:found", va, w, "history of the extended bundle"), fc.one(r, key + ":history:whole", vb, w, "history of the bundle of one file")
                if a is not None and b is not None:
                    hist(r, key + ":history", a, b, w)
            # the base and what belongs to it is as it was
            for e, st in ((f1, fa),):
                for store in ("db", "db_cache"):
                    for k, tb in field(F, field(F, e, store), "db")[1]:
                        now = table(F, st, k[1], store)
                        if k == K("oca_relations") or k == K("core_model"):
                            continue        # relations grow; the rows of the core model are decided elsewhere
                        lost = [x for x, y in tb[1] if mget(now, x) != y]
                        r.ob(f"{key}:kept:{store}:{k[1]}", not lost, w, f"what is stored for the base is changed: {[pv(F, x) for x in lost]}")
        # wrong instructions after FROM are reported with their lines
        own = "{a}" if "{a}" in bt else "{d}"
        t = T("\n-- name={nm}\nFROM <s>\nADD ATTRIBUTE {d}=Text\n\nADD LABEL en ATTRS {zz}=\"{*m}\" {d}=\"{*n}\"\nADD UNIT ATTRS {a}={u}\nADD FORMAT ATTRS {yy}={u}\n".replace("{a}", own), s=s1)
        for e in refused(r, f"from:{bk}:wrong", f1, t):
            vs = errors(r, e)
            ls = [(field(F, x, "line_number"), field(F, x, "raw_line")) for x in vs or []]
            want = [(K(6), of.T("ADD LABEL en ATTRS {zz}=\"{*m}\" {d}=\"{*n}\"")), (K(8), of.T("ADD FORMAT ATTRS {yy}={u}"))]
            r.ob(f"from:{bk}:wrong:lines", [(a, of.strip(b)) if b is not None else None for a, b in ls] == want, w, f"wrong instructions must be reported with their lines and texts: {[(pv(F, a), pv(F, b)) for a, b in ls]}")
            ms = [field(F, x, "message") for x in vs or []]
            for i, n in enumerate(("zz", "yy")):
                r.ob(f"from:{bk}:wrong:named:{i}", len(ms) > i and "!" + n in lbl(ms[i]), w, f"the message must name the attribute: {pv(F, ms[i]) if len(ms) > i else None}")
        # only the base
        f3, b3, _ = built(r, f"from:{bk}:only", f1, T("FROM <s>\n", s=s1))
        if f3 is not None:
            r.eq(f"from:{bk}:only:said", said(r, b3), s1, w, "a file with nothing but FROM is the base")
    # FROM anywhere else is not an instruction
    refused(r, "from:second", f1, T("ADD ATTRIBUTE {x}=Text\nFROM <s>\n", s=s1))
    refused(r, "from:twice", f1, T("FROM <s>\nFROM <s>\n", s=s1))
    # an identifier that is not stored
    for k, t in (("alone", "FROM {SAIDnone}\n"), ("more", "FROM {SAIDnone}\nADD ATTRIBUTE {x}=Text\n")):
        outs = run(r, "from:missing:" + k, f1, "build_from_ocafile", T(t))
        r.ob("from:missing:" + k, outs and all(only(v, 1) is not None for _, v, _ in outs), w, f"a base that is not stored must be an error: {[pv(F, v)[:200] for _, v, _ in outs]}")


def lbl(v):
    """symbols in a text"""
    if v is None:
        return set()
    if v[0] == "s":
        return set(v[1])
    if v[0] == "cat":
        return set().union(*[lbl(x) for x in v[1]])
    return set()


def errors(r, e):
    """FromASTError values of a validation error"""
    F = r.F
    if e is None or e[0] != "a" or e[1] != VERR and e[1] != ERR:
        es = e
    else:
        es = e[2][0][1][0] if len(e[2]) == 1 else None
    if es is None or es[0] != "t":
        return None
    out = []
    for x in es[1]:
        while x is not None and x[0] == "a" and x[1] == VERR and len(x[2]) == 1 and len(x[2][0][1]) == 1:
            x = x[2][0][1][0]
        out.append(x)
    return out


def hist(r, key, a, b, w):
    F = r.F
    if not r.ob(key + ":count", a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]), w, f"the extended bundle has {len(a[1])} steps, the one of one file {len(b[1])}"):
        return
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        for f in ("parent_said", "command"):
            r.eq(f"{key}:{i}:{f}", field(F, x, f), field(F, y, f), w, f"{f} of step {i}")
        r.eq(f"{key}:{i}:result", said(r, field(F, x, "result")), said(r, field(F, y, "result")), w, f"result of step {i}")


# ------------------------------------------------------------------ bundles with what they depend on
def written(r, key, v, d, w):
    """the JSON of a bundle given with its dependencies states all of them"""
    if d is None or d[0] != "t":
        return
    want = sm.jobj([(K("bundle"), se.emit(r, field(r.F, v, "bundle"))), (K("dependencies"), ("t", tuple(se.emit(r, x) for x in d[1])))])
    r.eq(key, se.emit(r, v), want, w, "the JSON of a bundle with its dependencies")


def deps(r):
    F = r.F
    f = fc.meth(r, "get_oca_bundle")
    w = r.where(f)
    st = stores(r)
    if st is None:
        return
    e, b1, b2 = st
    known = {"n": b1, "m": b2}
    # each over the ones before: (key, text, direct dependencies)
    texts = [("direct", "-- name={c}\nADD ATTRIBUTE {x}=refn:{n}\n", ["n"]),
             ("array", "-- name={d}\nADD ATTRIBUTE {w}=Text {x}=Array[Array[refn:{m}]] {y}=Boolean\n", ["m"]),
             ("both", "-- name={e}\nADD ATTRIBUTE {x}=refn:{n} {y}=Array[refn:{m}] {z}=Text\n", ["n", "m"]),
             ("chain", "-- name={f}\nADD ATTRIBUTE {x}=Array[refn:{c}]\nADD LABEL en ATTRS {x}=\"{*l}\"\n", ["c"]),
             ("deep", "-- name={g}\nADD ATTRIBUTE {x}=refn:{f} {y}=refn:{d}\n", ["f", "d"]),
             ("shared", "-- name={h}\nADD ATTRIBUTE {x}=refn:{c} {y}=refn:{n}\n", ["c", "n"]),
             ("twice", "-- name={i}\nADD ATTRIBUTE {x}=refn:{n} {y}=refn:{n}\n", ["n"]),
             ("none", "-- name={j}\nADD ATTRIBUTE {x}=Text\nADD LINK refn:{n} ATTRS {x}={l}\n", [])]
    need = {"n": set(), "m": set()}
    for k, t, ds in texts:
        nm = re.match(r"-- name=\{(\w+)\}", t).group(1)
        e, b, _ = built(r, "deps:" + k, e, T(t))
        if e is None:
            return
        known[nm] = b
        need[nm] = set(ds).union(*[need[d] for d in ds])
    for hr in (False, True) if r.tier != "quick" else (False,):
        for k, t, ds in texts + [("base", "-- name={n}\n", [])]:
            nm = re.match(r"-- name=\{(\w+)\}", t).group(1)
            key = f"deps:{k}" + (":reversed" if hr else "")
            _, vs, pn, _ = fc.ask(r, e, "get_oca_bundle", said(r, known[nm]), TRUE, hash_rev=hr)
            r.ob(key + ":total", not pn, w, f"can panic: {pn}")
            v = fc.one(r, key + ":found", vs, w, "a stored bundle with stored dependencies must be found")
            if v is None:
                continue
            fc.same_bundle(r, key + ":bundle", field(F, v, "bundle"), known[nm], w, "the bundle asked for")
            d = field(F, v, "dependencies")
            written(r, key + ":json", v, d, w)
            if r.ob(key + ":list", d is not None and d[0] == "t", w, f"dependencies: {pv(F, d)[:200]}"):
                want = {said(r, known[x]): x for x in need[nm]}
                got = [said(r, x) for x in d[1]]
                r.ob(key + ":all", set(got) == set(want), w, f"dependencies {sorted(want.values())} are needed, given: {[want.get(g, pv(F, g)) for g in got]}")
                for x in d[1]:
                    if said(r, x) in want:
                        fc.same_bundle(r, f"{key}:dependency:{want[said(r, x)]}", x, known[want[said(r, x)]], w, "a dependency")
            _, vs, pn, _ = fc.ask(r, e, "get_oca_bundle", said(r, known[nm]), FALSE, hash_rev=hr)
            v = fc.one(r, key + ":alone:found", vs, w, "a stored bundle must be found")
            if v is not None:
                r.eq(key + ":alone", field(F, v, "dependencies"), vec(), w, "dependencies that were not asked for")
    # what is needed is not stored
    for k, t in (("direct", "ADD ATTRIBUTE {x}=refs:{SAIDnone}\n"), ("array", "ADD ATTRIBUTE {y}=Text {x}=Array[Array[refs:{SAIDnone}]]\n"), ("one", "ADD ATTRIBUTE {x}=refn:{n} {y}=Array[refs:{SAIDnone}]\n")):
        e2, b, _ = built(r, "deps:missing:" + k, e, T(t))
        if e2 is None:
            continue
        for kk, ee, bb in ((k, e2, b),) + ((("chain", ) + built(r, "deps:missing:chain", e2, T("ADD ATTRIBUTE {x}=refs:<s>\n", s=said(r, b)))[:2]),) * (k == "array"):
            if ee is None:
                continue
            _, vs, pn, _ = fc.ask(r, ee, "get_oca_bundle", said(r, bb), TRUE)
            r.ob(f"deps:missing:{kk}", vs and not pn and all(only(v, 1) is not None for v in vs), w, f"a dependency that is not stored must be an error: {[pv(F, v)[:150] for v in vs]} {pn}")
            _, vs, pn, _ = fc.ask(r, ee, "get_oca_bundle", said(r, bb), FALSE)
            r.ob(f"deps:missing:{kk}:alone", vs and not pn and all(only(v, 0) is not None for v in vs), w, f"the bundle alone must be found: {[pv(F, v)[:150] for v in vs]} {pn}")


# ------------------------------------------------------------------ the text of a bundle
ROUND = [(k, bt + mt) for k, bt, mt in (("attributes", BASES[0][1], ""), ("pairs", BASES[2][1], ""), ("full", BASES[1][1], ""), ("more", BASES[1][1], dict(MORE)["several"] + dict(MORE)["codes"] + dict(MORE)["link"]))] + [
    ("types", "ADD ATTRIBUTE {a}=Text {b}=Numeric {c}=Boolean {d}=Binary {e}=DateTime {f}=Array[Text] {g}=Array[Array[Boolean]] {h}=refs:{SAIDp} {i}=Array[refs:{SAIDp}]\n"),
    ("languages", "ADD ATTRIBUTE {a}=Text\nADD LABEL en ATTRS {a}=\"{*x}\"\nADD LABEL fr ATTRS {a}=\"{*y}\"\nADD INFORMATION pl ATTRS {a}=\"{*z}\"\nADD META en PROPS name=\"{*n}\" description=\"{*d}\"\nADD META fr PROPS name=\"{*m}\"\n"),
    ("removed", "ADD ATTRIBUTE {a}=Text {b}=Text\nADD UNIT ATTRS {a}={u} {b}={v}\nREMOVE ATTRIBUTE {a}\n"),
    ("codes", "ADD ATTRIBUTE {a}=Text {b}=Text {c}=Text\nADD ENTRY_CODE ATTRS {a}=[\"{*x}\", \"{*y}\"] {b}={\"{*g}\": [\"{*x}\"]} {c}={SAIDe}\nADD ENTRY en ATTRS {a}={\"{*x}\": \"{*p}\", \"{*y}\": \"{*q}\"}\n"),
    ("conditions", "ADD ATTRIBUTE {a}=Text {b}=Numeric {c}=Numeric {d}=Text\nADD CONDITION ATTRS {a}=\"${{b}} > 3 and ${{c}} < ${{b}}\" {d}=\"${{c}} > 0 {x}\"\n"),
    ("framing", "ADD ATTRIBUTE {a}=Text {b}=Text\nADD ATTR_FRAMING id={i} label=\"{*l}\" location=\"{*o}\" version=1.0 ATTRS {a}={\"http://t/1\": {\"predicate_id\": \"{*p}\", \"framing_justification\": \"{*j}\"}}\nADD ATTR_FRAMING id={k} ATTRS {b}={\"http://t/2\": {\"predicate_id\": \"{*q}\", \"framing_justification\": \"{*qj}\"}}\n"),
    ("links", "ADD ATTRIBUTE {a}=Text {b}=Text\nADD LINK refs:{SAIDk} ATTRS {a}=\"{*h}\" {b}=\"{*i}\"\nADD LINK refs:{SAIDl} ATTRS {a}=\"{*j}\"\n"),
    ("quotes", "ADD ATTRIBUTE {a}=Text\nADD LABEL en ATTRS {a}='one \"two\" # -- \\\\'\nADD INFORMATION en ATTRS {a}=\"it's \\\"x\\\"\"\nADD CLASSIFICATION \"{*c}\"\n"),
]


def texts(r):
    """the text of a stored bundle is the text of its history, and gives the same bundle"""
    F = r.F
    w = r.where(fc.meth(r, "get_oca_bundle_ocafile"))
    wp = r.where(fc.meth(r, "parse_oca_bundle_to_ocafile"))
    free = r.fn("build::parse_oca_bundle_to_ocafile", crate="oca_rs")
    pf = of.parser(r)
    for k, t in ROUND:
        t = t.replace('"{*', '"t {*')           # a stored text that looks like a reference is read back as one (decided by C10)
        key = "text:" + k
        f1, b1, _ = built(r, key, fc.facade(r), T(t))
        if f1 is None:
            continue
        vs = of.parse(r, key + ":original", pf, T(t), w)
        orig = vt(r, field(F, only(vs[0], 0), "commands")) if len(vs) == 1 and only(vs[0], 0) is not None else None
        for deref in (FALSE, TRUE):
            kk = key + (":dereferenced" if deref == TRUE else "")
            _, vs, pn, _ = fc.ask(r, f1, "get_oca_bundle_ocafile", said(r, b1), deref, parts=400)
            r.ob(kk + ":total", not pn, w, f"writing the text of a stored bundle can panic: {pn}")
            x = fc.one(r, kk + ":found", vs, w, "the text of a stored bundle must be found")
            if x is None or not r.ob(kk + ":text", x[0] in ("k", "cat"), w, f"the text is not determined: {pv(F, x)[:200]}"):
                continue
            vs = of.parse(r, kk, pf, x, w)
            v = only(vs[0], 0) if len(vs) == 1 else None
            if r.ob(kk + ":readable", v is not None, w, f"the text must be readable: {pv(F, x)[:300]}: " + "; ".join(pv(F, y)[:200] for y in vs)):
                r.eq(kk + ":commands", vt(r, field(F, v, "commands")), orig, w, "instructions of the text of a stored bundle, compared with those it was built from")
            if deref == FALSE:
                again(r, kk, x, b1, w)
        outs = r.run(free, [Ref(b1, "bundle")], parts=400)
        pn = sorted({f"{z[1]} at {z[0].split('::')[-1]}" for z in r.ip.panics if not fc.quiet(z)})
        r.ob(key + ":bundle:total", not pn, wp, f"writing a bundle as text can panic: {pn}")
        if r.ob(key + ":bundle:text", len(outs) == 1 and outs[0][1] is not None and outs[0][1][0] in ("k", "cat"), wp, f"the text of a bundle is not determined: {[pv(F, v)[:200] for _, v in outs]}"):
            again(r, key + ":bundle", outs[0][1], b1, wp)
            _, vs, pn, _ = fc.ask(r, f1, "parse_oca_bundle_to_ocafile", Ref(b1, "bundle"), parts=400)
            r.ob(key + ":bundle:method", len(vs) == 1 and not pn and same_val(only(vs[0], 0), outs[0][1]), wp, "both ways of writing a bundle as text must agree")


def again(r, key, x, b, w):
    """building the text x gives bundle b"""
    e, v, _ = built(r, key + ":again", fc.facade(r), x)
    if e is not None:
        fc.same_bundle(r, key + ":again:bundle", v, b, w, f"the bundle built from its text {pv(r.F, x)[:200]}")
    f = r.fn("build::build_from_ocafile", crate="oca_rs") if key.startswith("text:full") else None
    if f is not None:
        outs = r.run(f, [x], parts=300)
        g = len(outs) == 1 and only(outs[0][1], 0) is not None
        if r.ob(key + ":again:plain", g, r.where(f), f"building without a facade: {[pv(r.F, v)[:200] for _, v in outs]}"):
            fc.same_bundle(r, key + ":again:plain:bundle", only(outs[0][1], 0), b, r.where(f), "the bundle built without a facade")
