"""Deserialisation: what serde's Deserialize implementations of the workspace read from an exact document.

A deserializer is the document it reads ('json::De').  Derived visitors (visit_map, visit_str, ...) are interpreted like any other
code; the access objects they are given hand out the members of the document in order.  Only the derive-generated and hand-written
implementations of the workspace are interpreted: for library types (text, option, list, table, box) the obvious reading is built in."""
from facts import norm
from interp import K, S, SL, UNIT, TRUE, FALSE, TOP, some, NONE, ok, err, OPTION, RESULT, BOX
import models as md
from models import m, ret, mark, tyname, is_map, tmp, store, strval, dv
import sermodels as sm
from sermodels import JOBJ, JNULL, pairs_of, jobj, strip, targ, doc_of, put, deref, exactv

DE = "json::De"
MA = "json::MapAccess"
SA = "json::SeqAccess"
EA = "json::EnumAccess"
VA = "json::VariantAccess"
SV = "serde_value::Value"
JV = "serde_json::value::Value"
CONTENT = "serde::__private::de::content::Content"


def node(kind, *fs):
    return ("a", kind, ((0, tuple(fs)),))


def isnode(v, kind):
    return v is not None and v[0] == "a" and v[1] == kind


def fld(v, i=0):
    return v[2][0][1][i]


def istext(d):
    return d is not None and (d[0] in ("s", "cat") or (d[0] == "k" and isinstance(d[1], str)))


def bad(cx, doc, what="de"):
    return err(mark(cx.ip.labels(doc, cx.st), what))


def variant_of(ip, adt, name):
    a = ip.F.adts.get(adt)
    for i, v in enumerate(a["v"] if a else ()):
        if v["n"] == name:
            return i
    return None


# ------------------------------------------------------------------ documents as library value types
def wrapdoc(ip, doc, adt):
    """document -> serde_value::Value / serde_json::Value / Content"""
    def mk(name, *fs):
        i = variant_of(ip, adt, name)
        return ("a", adt, ((i, tuple(fs)),)) if i is not None else SL(ip.labels(doc))
    if doc is None:
        return None
    if istext(doc):
        return mk("String", doc)
    if doc == JNULL:
        return mk("Null" if adt == JV else "Unit")
    if doc[0] == "k":
        return mk("Bool", doc) if adt != JV and doc in (TRUE, FALSE) else mk("Number", doc) if adt == JV else mk("U64", doc)
    ps = pairs_of(doc)
    if ps is not None:
        if adt == JV:
            return mk("Object", ("m", tuple((k, wrapdoc(ip, v, adt)) for k, v in ps), frozenset()))
        if adt == CONTENT:
            return mk("Map", ("t", tuple(("t", (wrapdoc(ip, k, adt), wrapdoc(ip, v, adt))) for k, v in ps)))
        prs = sorted(((wrapdoc(ip, k, adt), wrapdoc(ip, v, adt)) for k, v in ps), key=lambda p: sm.skey(p[0][2][0][1][0]) if p[0] and p[0][0] == "a" else repr(p))
        return mk("Map", ("m", tuple(prs), frozenset()))
    if doc[0] == "t":
        return mk("Array" if adt == JV else "Seq", ("t", tuple(wrapdoc(ip, x, adt) for x in doc[1])))
    return SL(ip.labels(doc))


def undoc(cx, st, v, depth=0):
    """the document a library value type holds"""
    ip = cx.ip
    v = deref(cx, st, v)
    if v is None or depth > 30:
        return None
    if v[0] == "a" and v[1] in (SV, JV, CONTENT):
        if len(v[2]) != 1:
            return SL(ip.labels(v, st))
        i, fs = v[2][0]
        if not fs:
            return JNULL
        if v[1] == CONTENT and i == variant_of(ip, CONTENT, "Map"):
            x = deref(cx, st, fs[0])
            if x is None or x[0] != "t" or not all(p is not None and p[0] == "t" and len(p[1]) == 2 for p in x[1]):
                return SL(ip.labels(x, st))
            return jobj([(undoc(cx, st, p[1][0], depth + 1), undoc(cx, st, p[1][1], depth + 1)) for p in x[1]])
        return undoc(cx, st, fs[0], depth + 1)
    if v[0] == "a" and v[1] in (BOX, OPTION) and len(v[2]) == 1:
        return undoc(cx, st, v[2][0][1][0], depth + 1) if v[2][0][1] else JNULL
    if v[0] == "m":
        return jobj([(undoc(cx, st, k, depth + 1), undoc(cx, st, x, depth + 1)) for k, x in v[1]])
    if v[0] == "t":
        return ("t", tuple(undoc(cx, st, x, depth + 1) for x in v[1]))
    return v


def sm_ser_any(cx, st, v, t, depth=0, _o=sm.ser_any):
    x = deref(cx, st, v) if v is not None else None
    if x is not None and x[0] == "a" and x[1] in (SV, JV, CONTENT):
        return [(st, undoc(cx, st, x))]
    return _o(cx, st, v, t, depth)


sm.ser_any = sm_ser_any


def source(cx, st, d):
    """document a deserializer value reads"""
    ip = cx.ip
    v = deref(cx, st, d)
    if v is None:
        return None
    if isnode(v, DE):
        return fld(v)
    if v[0] == "a" and "FlatMapDeserializer" in v[1]:
        lst = deref(cx, st, fld(v))
        ps = []
        if lst is None or lst[0] != "t":
            return SL(ip.labels(lst, st))
        for e in lst[1]:
            e = deref(cx, st, e)
            if e is None or e[0] != "a" or len(e[2]) != 1:
                return SL(ip.labels(lst, st))
            if e[2][0][0] == 1:
                kv = deref(cx, st, e[2][0][1][0])
                if kv is None or kv[0] != "t" or len(kv[1]) != 2:
                    return SL(ip.labels(lst, st))
                ps.append((undoc(cx, st, kv[1][0]), undoc(cx, st, kv[1][1])))
        return jobj(ps)
    if v[0] == "a" and ("ContentRefDeserializer" in v[1] or "ContentDeserializer" in v[1]):
        return undoc(cx, st, fld(v))
    if v[0] == "a" and v[1] in (SV, JV, CONTENT):
        return undoc(cx, st, v)
    return SL(ip.labels(v, st))


# ------------------------------------------------------------------ reading
def de_impl(ip, t):
    for st, fn in ip.F.impls.get(("serde::de::Deserialize", "deserialize"), []):
        if md.unify(st, t):
            return fn
    return None


def oks(cx, outs):
    """split [(state, Result)] -> ([(state, value)], [(state, error result)])"""
    good, rest = [], []
    for s, r in outs:
        if r is None:
            continue
        vs = md.variants(cx, r, RESULT)
        if 0 in vs:
            good.append((s if len(vs) == 1 else s.copy(), vs[0][0]))
        if 1 in vs:
            rest.append((s, err(vs[1][0])))
    return good, rest


def many_of(cx, st, docs, f):
    """thread f over documents; -> [(state, tuple)], errors"""
    cur, errs = [(st, ())], []
    for d in docs:
        nx = []
        for s, acc in cur:
            g, e = oks(cx, f(s, d))
            errs += e
            nx += [(s2, acc + (v,)) for s2, v in g]
        cur = nx
        if len(cur) > 8:
            cur = cur[:0]
            errs.append((st, err(SL(cx.ip.labels(docs[0])))))
    return cur, errs


def de_any(cx, st, doc, t, depth=0):
    """-> [(state, Result)]"""
    ip = cx.ip
    if doc is None or depth > 40:
        return []
    if t is None:
        return [(st, ok(doc)), (st.copy(), bad(cx, doc))]
    fn = de_impl(ip, t)
    if fn is not None:
        return ip.call_fn(fn, [node(DE, doc)], st.copy(), (cx.site[0], "de", fn.h, depth), cx.chain, cx.fid)
    n = tyname(t)
    last = n.split("::")[-1]
    if n == "said::version::SerializationInfo":
        return [(st, ok(doc))]
    if n in (SV, JV, CONTENT) or n.endswith("content::Content"):
        return [(st, ok(wrapdoc(ip, doc, n if n in (SV, JV) else CONTENT)))]
    if last == "IgnoredAny":
        return [(st, ok(("a", n, ((0, ()),))))]
    exact = istext(doc) or doc == JNULL or pairs_of(doc) is not None or doc[0] in ("t", "k")
    if n == OPTION:
        if doc == JNULL:
            return [(st, ok(NONE))]
        g, e = oks(cx, de_any(cx, st, doc, targ(t, 0), depth + 1))
        return [(s, ok(some(v))) for s, v in g] + e
    if t["k"] == "adt" and n in sm.WRAP:
        return de_any(cx, st, doc, targ(t, -1 if last == "Cow" else 0), depth + 1)
    if t["k"] == "ref" and t["t"]["s"] == "str" or last in ("String", "str"):
        return [(st, ok(doc) if istext(doc) else bad(cx, doc))]
    if not exact:
        return [(st, ok(SL(ip.labels(doc)))), (st.copy(), bad(cx, doc))]
    if n.startswith("isolang::") and last == "Language":
        if doc[0] == "k" and isinstance(doc[1], str) and not doc[1].startswith("lang:"):
            return [(st, ok(K("lang:" + doc[1])) if doc[1] in md.ISO.values() else bad(cx, doc))]
        return [(st, ok(doc) if istext(doc) else bad(cx, doc))]
    if n == "said::SelfAddressingIdentifier" or last == "SelfAddressingIdentifier":
        if not istext(doc):
            return [(st, bad(cx, doc))]
        if doc[0] == "s" and md.sym(doc) and (doc_of(doc) is not None or next(iter(doc[1])).startswith("!SAID") or "said" in next(iter(doc[1])).lower()):
            return [(st, ok(doc))]
        if doc[0] == "k":
            return [(st, ok(doc)), (st.copy(), bad(cx, doc))] if len(doc[1]) == 44 else [(st, bad(cx, doc))]
        return [(st, ok(SL(ip.labels(doc)))), (st.copy(), bad(cx, doc))]
    if is_map(t) or n == "serde_json::map::Map":
        ps = pairs_of(doc)
        if ps is None:
            return [(st, bad(cx, doc))]
        kt, vt = targ(t, 0), targ(t, 1)
        ks, e1 = many_of(cx, st, [k for k, _ in ps], lambda s, d: de_any(cx, s, d, kt, depth + 1))
        out = list(e1)
        for s, kk in ks:
            vs, e2 = many_of(cx, s, [v for _, v in ps], lambda s, d: de_any(cx, s, d, vt, depth + 1))
            out += e2
            for s2, vv in vs:
                prs = list(zip(kk, vv))
                if last == "BTreeMap":
                    prs.sort(key=lambda p: sm.skey(p[0]))
                out.append((s2, ok(("m", tuple(prs), frozenset(["U"]) if md.unordered(t) else frozenset()))))
        return out
    if last in sm.SEQ:
        if doc[0] != "t":
            return [(st, bad(cx, doc))]
        cur, e = many_of(cx, st, list(doc[1]), lambda s, d: de_any(cx, s, d, targ(t, 0), depth + 1))
        return [(s, ok(("t", vs))) for s, vs in cur] + e
    if t["k"] == "tuple" and t.get("a"):
        if doc[0] != "t" or len(doc[1]) != len(t["a"]):
            return [(st, bad(cx, doc))]
        cur, errs = [(st, ())], []
        for d, et in zip(doc[1], t["a"]):
            nx = []
            for s, acc in cur:
                g, e = oks(cx, de_any(cx, s, d, et, depth + 1))
                errs += e
                nx += [(s2, acc + (v,)) for s2, v in g]
            cur = nx
        return [(s, ok(("t", vs))) for s, vs in cur] + errs
    if t["s"] == "()":
        return [(st, ok(UNIT) if doc == JNULL else bad(cx, doc))]
    if t["s"] == "bool":
        return [(st, ok(doc) if doc[0] == "k" and not isinstance(doc[1], str) else bad(cx, doc))]
    if t["s"] in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
        return [(st, ok(doc) if (doc[0] == "k" and isinstance(doc[1], int)) or (doc[0] == "s" and any(l.startswith("!#") for l in doc[1])) else bad(cx, doc))]
    return [(st, ok(SL(ip.labels(doc)))), (st.copy(), bad(cx, doc))]


def visitor_fn(ip, v, name):
    if v is None or v[0] != "a":
        return None
    for sty, fn in ip.F.impls.get(("serde::de::Visitor", name), []):
        if sty["k"] == "adt" and sty["p"] == v[1]:
            return fn
    return None


def visit(cx, visitor, names, arg):
    """call the first of the named visitor methods the visitor defines"""
    ip = cx.ip
    v = deref(cx, cx.st, visitor)
    if v is None or v[0] != "a" or not any(visitor_fn(ip, v, n) for n in ("expecting",)):
        l = ip.labels(arg, cx.st) | ip.labels(v, cx.st)
        return [(cx.st, ok(SL(l))), (cx.st.copy(), err(SL(l)))]
    for n in names:
        fn = visitor_fn(ip, v, n)
        if fn is not None:
            return ip.call_fn(fn, [v, arg], cx.st.copy(), (cx.site[0], "visit", n), cx.chain, cx.fid)
    return [(cx.st, bad(cx, arg, "invalid_type"))]


TEXT = ("visit_str", "visit_string", "visit_borrowed_str")


def visit_doc(cx, visitor, doc):
    ip = cx.ip
    if doc is None:
        return []
    if istext(doc):
        return visit(cx, visitor, TEXT, doc)
    if doc == JNULL:
        return visit(cx, visitor, ("visit_unit", "visit_none"), UNIT)
    if doc[0] == "k":
        return visit(cx, visitor, ("visit_bool",) if doc in (TRUE, FALSE) else ("visit_u64", "visit_i64"), doc)
    ps = pairs_of(doc)
    if ps is not None:
        return visit(cx, visitor, ("visit_map",), node(MA, ("t", tuple(("t", (k, v)) for k, v in ps)), NONE))
    if doc[0] == "t":
        return visit(cx, visitor, ("visit_seq",), node(SA, doc))
    l = ip.labels(doc) | ip.labels(visitor, cx.st)
    return [(cx.st, ok(SL(l))), (cx.st.copy(), err(SL(l)))]


D = "serde::de::Deserializer::"


@m(*[D + x for x in ("deserialize_struct", "deserialize_map", "deserialize_any", "deserialize_identifier", "deserialize_str", "deserialize_string", "deserialize_seq",
                     "deserialize_tuple", "deserialize_bool", "deserialize_u64", "deserialize_unit", "deserialize_tuple_struct", "deserialize_ignored_any", "deserialize_u8",
                     "deserialize_u32", "deserialize_i64")])
def d_struct(ip, cx):
    doc = source(cx, cx.st, cx.args[0])
    n = cx.np.split("::")[-1]
    if n in ("deserialize_struct", "deserialize_map") and doc is not None and not (pairs_of(doc) is not None or (doc[0] == "t" and n == "deserialize_struct")) and (istext(doc) or doc[0] in "kt" or doc == JNULL):
        return ret(cx, bad(cx, doc))
    return visit_doc(cx, cx.args[-1], doc)


@m(D + "deserialize_option")
def d_option(ip, cx):
    doc = source(cx, cx.st, cx.args[0])
    if doc == JNULL:
        return visit(cx, cx.args[-1], ("visit_none", "visit_unit"), UNIT)
    return visit(cx, cx.args[-1], ("visit_some",), node(DE, doc))


@m(D + "deserialize_newtype_struct")
def d_newtype(ip, cx):
    return visit(cx, cx.args[-1], ("visit_newtype_struct",), node(DE, source(cx, cx.st, cx.args[0])))


@m(D + "deserialize_enum")
def d_enum(ip, cx):
    doc = source(cx, cx.st, cx.args[0])
    if istext(doc):
        return visit(cx, cx.args[-1], ("visit_enum",), node(EA, doc, NONE))
    ps = pairs_of(doc)
    if ps is not None and len(ps) == 1:
        return visit(cx, cx.args[-1], ("visit_enum",), node(EA, ps[0][0], some(ps[0][1])))
    return ret(cx, bad(cx, doc))


@m("serde::de::EnumAccess::variant")
def ea_variant(ip, cx):
    a = deref(cx, cx.st, cx.args[0])
    if not isnode(a, EA):
        return None
    out = []
    g, e = oks(cx, de_any(cx, cx.st, fld(a), cx.c["a"][-1]))
    return [(s, ok(("t", (v, node(VA, fld(a, 1)))))) for s, v in g] + e


@m("serde::de::VariantAccess::unit_variant")
def va_unit(ip, cx):
    a = deref(cx, cx.st, cx.args[0])
    if not isnode(a, VA):
        return None
    return ret(cx, ok(UNIT) if fld(a) == NONE else bad(cx, fld(a)))


@m("serde::de::VariantAccess::newtype_variant")
def va_newtype(ip, cx):
    a = deref(cx, cx.st, cx.args[0])
    if not isnode(a, VA) or fld(a) == NONE:
        return ret(cx, bad(cx, a))
    return de_any(cx, cx.st, fld(a)[2][0][1][0], cx.c["a"][-1])


@m("serde::de::VariantAccess::struct_variant", "serde::de::VariantAccess::tuple_variant")
def va_struct(ip, cx):
    a = deref(cx, cx.st, cx.args[0])
    if not isnode(a, VA) or fld(a) == NONE:
        return ret(cx, bad(cx, a))
    return visit_doc(cx, cx.args[-1], fld(a)[2][0][1][0])


def access(cx, kind):
    """(target pointer, access value)"""
    a = deref(cx, cx.st, cx.args[0])
    return a if isnode(a, kind) and fld(a)[0] == "t" else None


def unknown(cx, optional):
    l = cx.ip.labels(cx.args[0], cx.st)
    v = SL(l)
    out = [(cx.st, ok(some(v) if optional else v)), (cx.st.copy(), err(v))]
    if optional:
        out.append((cx.st.copy(), ok(NONE)))
    return out


@m("serde::de::MapAccess::next_key")
def ma_key(ip, cx):
    a = access(cx, MA)
    if a is None:
        return unknown(cx, True)
    ps = fld(a)[1]
    if not ps:
        return ret(cx, ok(NONE))
    k, v = ps[0][1]
    put(cx, cx.args[0], node(MA, ("t", ps[1:]), some(v)))
    g, e = oks(cx, de_any(cx, cx.st, k, cx.c["a"][-1]))
    return [(s, ok(some(x))) for s, x in g] + e


@m("serde::de::MapAccess::next_value")
def ma_value(ip, cx):
    a = access(cx, MA)
    p = fld(a, 1) if a is not None else None
    if p is None or p[0] != "a" or len(p[2]) != 1 or not p[2][0][1]:
        return unknown(cx, False)
    v = fld(a, 1)[2][0][1][0]
    put(cx, cx.args[0], node(MA, fld(a), NONE))
    return de_any(cx, cx.st, v, cx.c["a"][-1])


@m("serde::de::MapAccess::next_entry")
def ma_entry(ip, cx):
    a = access(cx, MA)
    if a is None:
        return unknown(cx, True)
    ps = fld(a)[1]
    if not ps:
        return ret(cx, ok(NONE))
    k, v = ps[0][1]
    put(cx, cx.args[0], node(MA, ("t", ps[1:]), NONE))
    g, out = oks(cx, de_any(cx, cx.st, k, cx.c["a"][-2]))
    for s, x in g:
        g2, e2 = oks(cx, de_any(cx, s, v, cx.c["a"][-1]))
        out += e2 + [(s2, ok(some(("t", (x, y))))) for s2, y in g2]
    return out


@m("serde::de::SeqAccess::next_element")
def sa_next(ip, cx):
    a = access(cx, SA)
    if a is None:
        return unknown(cx, True)
    els = fld(a)[1]
    if not els:
        return ret(cx, ok(NONE))
    put(cx, cx.args[0], node(SA, ("t", els[1:])))
    g, e = oks(cx, de_any(cx, cx.st, els[0], cx.c["a"][-1]))
    return [(s, ok(some(x))) for s, x in g] + e


@m("serde::de::MapAccess::size_hint", "serde::de::SeqAccess::size_hint")
def a_hint(ip, cx):
    return ret(cx, NONE)


@m("serde::de::Deserialize::deserialize")
def de_deserialize(ip, cx):
    doc = source(cx, cx.st, cx.args[0])
    t = cx.c["a"][0] if cx.c.get("a") else None
    return de_any(cx, cx.st, doc, t)


@m("serde::__private::de::content::ContentRefDeserializer::new", "serde::__private::de::content::ContentDeserializer::new")
def crd(ip, cx):
    return ret(cx, node(DE, undoc(cx, cx.st, cx.args[0])))


@m("serde_value::Value::deserialize_into")
def sv_into(ip, cx):
    return de_any(cx, cx.st, undoc(cx, cx.st, cx.args[0]), cx.c["a"][-1])


@m("serde_json::value::from_value")
def jv_into(ip, cx):
    return de_any(cx, cx.st, undoc(cx, cx.st, cx.args[0]), cx.c["a"][0])


@m("serde_json::de::from_str", "serde_json::de::from_slice", "serde_json::de::from_reader")
def js_from(ip, cx):
    v = strval(cx, cx.args[0])
    while v is not None and v[0] == "ref":
        v = strval(cx, v)
    d = doc_of(v)
    if d is not None and d[0] in ("doc", "pretty"):
        return de_any(cx, cx.st, d[1], cx.c["a"][-1])
    l = ip.labels(v, cx.st)
    return [(cx.st, ok(mark(l, "parse"))), (cx.st.copy(), err(mark(l, "parse")))]


@m("serde::__private::de::missing_field")
def missing(ip, cx):
    t = cx.c["a"][0]
    if tyname(t) == OPTION:
        return ret(cx, ok(NONE))
    return ret(cx, err(mark(ip.labels(cx.args[0], cx.st), "missing_field")))


@m(*["serde::de::Error::" + x for x in ("custom", "missing_field", "duplicate_field", "unknown_field", "unknown_variant", "invalid_value", "invalid_type", "invalid_length")])
def de_err(ip, cx):
    l = frozenset()
    for a in cx.args:
        l |= ip.labels(a, cx.st)
    return ret(cx, mark(l, "de_error"))


# ------------------------------------------------------------------ recursion schemes
REC = 10


def trait_fn(ip, tr, meth, adt):
    for sty, fn in ip.F.impls.get((tr, meth), []):
        if sty["k"] == "adt" and sty["p"] == adt:
            return fn
    return None


def expand(ip, st, f, adt, seed, depth, site, fid, chain):
    out = []
    fid = ip.newfid("expand", fid, site, depth)
    for s, frame in ip.invoke(st, f, [seed], (site, "expand", depth), fid, chain):
        frame = ip.deref(s, frame)
        mf = trait_fn(ip, "recursion::frame::MappableFrame", "map_frame", frame[1]) if frame is not None and frame[0] == "a" else None
        ff = trait_fn(ip, "recursion::recursive::expand::Expandable", "from_frame", adt)
        if mf is None or ff is None or depth >= REC:
            out.append((s, mark(ip.labels(frame, s), "expand_frames")))
            continue
        g = ("clo", "native:expand", (f, K(adt), K(depth + 1), ("k", ("chain", tuple(chain)))))
        for s2, fr in ip.call_fn(mf, [frame, g], s, (site, "map_frame", depth), chain, fid):
            out += ip.call_fn(ff, [fr], s2, (site, "from_frame", depth), chain, fid)
    return out


def collapse(ip, st, f, adt, v, depth, site, fid, chain):
    out = []
    fid = ip.newfid("collapse", fid, site, depth)
    v = ip.deref(st, v)
    for _ in range(4):
        if v is not None and v[0] == "a" and v[1] == BOX and len(v[2]) == 1:
            v = ip.deref(st, v[2][0][1][0])
    inf = trait_fn(ip, "recursion::recursive::collapse::Collapsible", "into_frame", adt)
    if inf is None or depth >= REC or v is None or v[0] != "a":
        return [(st, mark(ip.labels(v, st), "collapse_frames"))]
    for s, frame in ip.call_fn(inf, [v], st.copy(), (site, "into_frame", depth), chain, fid):
        mf = trait_fn(ip, "recursion::frame::MappableFrame", "map_frame", frame[1]) if frame is not None and frame[0] == "a" else None
        if mf is None:
            out.append((s, mark(ip.labels(frame, s), "collapse_frames")))
            continue
        g = ("clo", "native:collapse", (f, K(adt), K(depth + 1), ("k", ("chain", tuple(chain)))))
        for s2, fr in ip.call_fn(mf, [frame, g], s, (site, "map_frame", depth), chain, fid):
            out += ip.invoke(s2, f, [fr], (site, "collapse", depth), fid, chain)
    return out


def native(which):
    def run(ip, st, f, args, site, fid, chain):
        g, adt, d, ch = f[2]
        return which(ip, st.copy(), g, adt[1], args[0], d[1], (site, "nat"), fid, ch[1][1])
    return run


md.NATIVE["native:expand"] = native(expand)
md.NATIVE["native:collapse"] = native(collapse)


@m("recursion::recursive::expand::ExpandableExt::expand_frames")
def expand_frames(ip, cx):
    return expand(ip, cx.st.copy(), cx.args[1], tyname(cx.c["a"][0]), cx.args[0], 0, cx.site[0], cx.fid, cx.chain)


@m("recursion::recursive::collapse::CollapsibleExt::collapse_frames")
def collapse_frames(ip, cx):
    return collapse(ip, cx.st.copy(), cx.args[1], tyname(cx.c["a"][0]), cx.args[0], 0, cx.site[0], cx.fid, cx.chain)
