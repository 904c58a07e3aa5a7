"""Serialisation: what serde's Serialize implementations of the workspace write, as exact ordered documents.

A document is a string / number value itself, ('t', members) for arrays, ('a', 'json::Object', ((0, (('t', (('t', (key, value)),...)),)),)) for
objects in the order they are written, or JNULL.  Digests and encoded texts are interned: two of them are the same symbol exactly when the
documents they were computed from are the same."""
import functools
from facts import norm
from interp import K, S, SL, UNIT, TRUE, FALSE, some, NONE, ok, err, OPTION, RESULT, BOX
import models as md
import strmodels
import sqlmodels, storemodels
from models import m, ret, mark, tyname, is_map, unordered, tmp, store, strval, dv

JOBJ = "json::Object"
JNULL = ("a", "json::Null", ((0, ()),))
SER = ("k", ("ser",))
BLD = "json::Builder"

DOCS = []
INDEX = {}


def intern(kind, doc):
    k = (kind, doc)
    if k not in INDEX:
        INDEX[k] = len(DOCS)
        DOCS.append(k)
    return S(f"!{kind}:{INDEX[k]}")


def doc_of(v):
    """(kind, document) of an interned value"""
    if v is None or v[0] != "s" or len(v[1]) != 1:
        return None
    l = next(iter(v[1]))
    if l[0] != "!" or ":" not in l:
        return None
    n = l.split(":")[-1]
    return DOCS[int(n)] if n.isdigit() and int(n) < len(DOCS) and DOCS[int(n)][0] == l[1:].split(":")[0] else None


def deep_labels(ip, v, seen=None):
    """labels of a value, looking into interned documents"""
    seen = set() if seen is None else seen
    out = set()
    for l in ip.labels(v):
        d = doc_of(S(l))
        if d is None:
            out.add(l)
        elif l not in seen:
            seen.add(l)
            out.add(l)
            out |= deep_labels(ip, d[1], seen)
            out.add("~" + d[0])
    return out


def digested(v):
    """(hash function, document) a SAID was computed from"""
    d = doc_of(v)
    if d is None or d[0] != "digest" or d[1][0] != "t":
        return None, None
    x = doc_of(d[1][1][1])
    return d[1][1][0], x[1] if x else None


def jobj(pairs):
    return ("a", JOBJ, ((0, (("t", tuple(("t", (k, v)) for k, v in pairs)),)),))


def pairs_of(v):
    if v is None or v[0] != "a" or v[1] != JOBJ:
        return None
    p = v[2][0][1][0]
    return [x[1] for x in p[1]] if p[0] == "t" else None


def exact_doc(v):
    """is this one document: constants and symbols in known places"""
    if v is None:
        return False
    if v[0] == "k":
        return True
    if v[0] == "s":
        return len(v[1]) == 1 and next(iter(v[1])).startswith("!")
    if v[0] in ("t", "cat"):
        return all(exact_doc(x) for x in v[1])
    if v == JNULL:
        return True
    ps = pairs_of(v)
    return ps is not None and all(exact_doc(k) and exact_doc(x) for k, x in ps)


def jget(v, key):
    for k, x in pairs_of(v) or []:
        if k == key or (isinstance(key, str) and k == K(key)):
            return x
    return None


def skey(v):
    """a fixed total order: constants by their text, then symbols by name"""
    if v is None:
        return (9, "")
    if v[0] == "k":
        return (0, v[1]) if isinstance(v[1], str) else (1, str(v[1]).zfill(24))
    d = doc_of(v)
    if d is not None:
        return (3, repr(d))
    if v[0] == "cat":
        return (2, repr(v))
    return (2, repr(sorted(v[1])) if v[0] == "s" else repr(v))


def deref(cx, st, v):
    return cx.ip.deref(st, v)


def exactv(v):
    return v is not None and v[0] in ("k", "s", "cat")


def order(cx, t, pairs):
    n = tyname(t).split("::")[-1]
    if n in ("BTreeMap", "BTreeSet") or tyname(t) == "serde_json::map::Map":
        return sorted(pairs, key=lambda p: skey(deref(cx, cx.st, p[0])))
    if unordered(t) and getattr(cx.ip, "hash_rev", False):
        return pairs[::-1]
    return pairs


def ser_impl(ip, t):
    for st, fn in ip.F.impls.get(("serde::ser::Serialize", "serialize"), []):
        if md.unify(st, t):
            return fn
    return None


SEQ = ("Vec", "VecDeque", "HashSet", "BTreeSet", "IndexSet")
WRAP = (BOX, "alloc::sync::Arc", "alloc::rc::Rc", "alloc::borrow::Cow")


def targ(t, i):
    if t is None:
        return None
    a = [x for x in t.get("a") or [] if isinstance(x, dict) and x["k"] != "region"]
    return a[i] if i < len(a) else None


def strip(t):
    while t is not None and (t["k"] in ("ref", "ptr") or (t["k"] == "adt" and tyname(t) in WRAP)):
        t = t["t"] if t["k"] in ("ref", "ptr") else targ(t, -1 if tyname(t) == "alloc::borrow::Cow" else 0)
    return None if t is None or t["k"] in ("param", "dyn", "alias") else t


def ser_value(cx, st, v, t, depth=0):
    return ser_any(cx, st, v, t, depth)


def merge(ip, outs):
    """one outcome per state is kept exact; many are joined"""
    if len(outs) <= 4:
        return outs
    st, j = outs[0]
    for s, x in outs[1:]:
        st = ip.joinst(st, s)[0]
        j = SL(ip.labels(j) | ip.labels(x))
    return [(st, j)]


def ser_seq(cx, st, els, et, depth):
    cur = [(st, ())]
    for e in els:
        cur = [(s2, acc + (j,)) for s, acc in cur for s2, j in ser_any(cx, s, e, et, depth)]
        if len(cur) > 4:
            return None
    return [(s, ("t", a)) for s, a in cur]


def ser_map(cx, st, prs, kt, vt, depth):
    cur = [(st, ())]
    for k, e in prs:
        cur = [(s3, acc + ((jk, je),)) for s, acc in cur for s2, jk in ser_any(cx, s, k, kt, depth) for s3, je in ser_any(cx, s2, e, vt, depth)]
        if len(cur) > 4:
            return None
    return [(s, jobj(a)) for s, a in cur]


def ser_any(cx, st, v, t, depth=0):
    """-> [(state, document)]; the value decides, its type only orders collections and resolves what the value leaves open"""
    ip = cx.ip
    if v is None or depth > 40:
        return []
    t = strip(t)
    x = deref(cx, st, v)
    if x is None:
        return []
    n = tyname(t) if t is not None else ""
    if n == "said::version::SerializationInfo":
        return [(st, S("!version"))]
    last = n.split("::")[-1]
    if x[0] == "s" and md.sym(x) and n != OPTION:
        return [(st, x)]            # one opaque value, one document
    if x[0] == "a" and x[1] in (JOBJ, "json::Null"):
        return [(st, x)]
    if x[0] in ("k", "cat"):
        return [(st, x)]
    if x[0] == "or":
        outs = []
        for y in x[1]:
            outs += ser_any(cx, st.copy(), y, None, depth + 1)
        return merge(ip, outs)
    if x[0] == "a" and x[1] in ip.F.adts:
        for sty, fn in ip.F.impls.get(("serde::ser::Serialize", "serialize"), []):
            if sty["k"] == "adt" and sty["p"] == x[1]:
                return call_ser(cx, st, fn, v)
        if x[1] in ("serde_value::Value", "serde_json::value::Value") and len(x[2]) == 1:
            i, fs = x[2][0]
            if not fs:
                return [(st, JNULL)]
            return ser_any(cx, st, fs[0], None, depth + 1)
    if x[0] == "a" and x[1] in WRAP and len(x[2]) == 1 and x[2][0][1]:
        return ser_any(cx, st, x[2][0][1][0], t, depth + 1)
    if (x[0] == "a" and x[1] == OPTION) or n == OPTION:
        vs = md.variants(cx, x, OPTION)
        outs = []
        if 0 in vs:
            outs.append((st if len(vs) == 1 else st.copy(), JNULL))
        if 1 in vs:
            outs += ser_any(cx, st if len(vs) == 1 else st.copy(), vs[1][0], targ(t, 0) if n == OPTION else None, depth + 1)
        return outs
    if x[0] == "m":
        prs = list(x[1])
        if t is not None and is_map(t):
            prs = order(cx, t, prs)
        elif t is None and prs:
            return [(st, SL(ip.labels(x, st)))]
        r = ser_map(cx, st, prs, targ(t, 0), targ(t, 1), depth + 1)
        return r if r is not None else [(st, SL(ip.labels(x, st)))]
    if x[0] == "t":
        els = list(x[1])
        if not els and t is not None and t["k"] == "tuple":
            return [(st, JNULL)]
        et = t["t"] if t is not None and t["k"] in ("slice", "array") and "t" in t else targ(t, 0) if last in SEQ else None
        if last == "BTreeSet":
            els.sort(key=skey)
        elif t is not None and unordered(t) and getattr(ip, "hash_rev", False):
            els = els[::-1]
        r = ser_seq(cx, st, els, et, depth + 1)
        return r if r is not None else [(st, SL(ip.labels(x, st)))]
    if t is not None and t["k"] == "adt":
        fn = ser_impl(ip, t)
        if fn is not None:
            return call_ser(cx, st, fn, v)
    return [(st, SL(ip.labels(x, st)))]


def call_ser(cx, st, fn, v, ser=None):
    ip = cx.ip
    st = st.copy()
    for _ in range(8):            # &&T -> &T
        if v[0] != "r" or len(v[1]) != 1:
            break
        x = ip.load(st, next(iter(v[1])))
        if x is None or x[0] != "r":
            break
        v = x
    if v[0] != "r":
        cell = ip.newfid("ser", cx.fid, cx.site[0], fn.h, repr(v)[:200])
        st.fr[cell] = {0: v}
        v = ("r", frozenset([(cell, 0, ())]))
    out = []
    for s, r in ip.call_fn(fn, [v, SER if ser is None else ser], st, (cx.site[0], "ser", fn.h), cx.chain, cx.fid):
        vs = md.variants(cx, r, RESULT) if r is not None and r[0] == "a" else {0: (r,)}
        if 0 in vs:
            out.append((s, vs[0][0]))
    return out


# ------------------------------------------------------------------ Serializer
def results(cx, outs):
    """documents -> results of the serializer the call was given"""
    ip = cx.ip
    o = []
    for s, j in outs:
        if j is not None:
            o.append((s, ok(j)))
    return o


def sink(cx, i, outs):
    """the serializer argument may be a flattening one that adds to a builder"""
    ip = cx.ip
    f = ip.deref(cx.st, cx.args[i])
    if f is not None and f[0] == "a" and "FlatMapSerializer" in f[1]:
        out = []
        for s, j in outs:
            tgt = f[2][0][1][0]
            old = cx.st
            cx.st = s
            b = ip.deref(s, tgt)
            ps = pairs_of(j)
            if b is not None and b[0] == "a" and b[1] == BLD and ps is not None:
                put(cx, tgt, addpairs(b, ps))
            else:
                put(cx, tgt, SL(ip.labels(b, s) | ip.labels(j, s)))
            cx.st = old
            out.append((s, ok(UNIT)))
        return out
    return results(cx, outs)


def put(cx, p, v):
    a = cx.args
    cx.args = [p]
    store(cx, 0, v)
    cx.args = a


def builder(kind):
    return ("a", BLD, ((0, (K(kind), ("t", ()))),))


def addpairs(b, ps):
    k, t = b[2][0][1]
    if t[0] != "t":
        return b
    return ("a", BLD, ((0, (k, ("t", t[1] + tuple(("t", tuple(p)) for p in ps)))),))


SR = "serde::ser::Serializer::"


@m(SR + "serialize_struct", SR + "serialize_map", SR + "serialize_seq", SR + "serialize_tuple", SR + "serialize_tuple_struct", SR + "serialize_struct_variant", SR + "serialize_tuple_variant")
def begin(ip, cx):
    n = cx.np.split("::")[-1]
    b = builder("seq" if n in ("serialize_seq", "serialize_tuple", "serialize_tuple_struct") else "map")
    f = ip.deref(cx.st, cx.args[0])
    if f is not None and f[0] == "a" and "FlatMapSerializer" in f[1]:
        # entries go straight into the surrounding object
        return ret(cx, ok(("a", "json::Flat", ((0, (f[2][0][1][0],)),))))
    if n == "serialize_struct_variant" or n == "serialize_tuple_variant":
        b = ("a", BLD, ((0, (("k", ("variant", strval(cx, cx.args[3]), n)), ("t", ()))),))
    return ret(cx, ok(b))


def badd(cx, i, outs):
    """outs: [(state, [key?, value])]"""
    ip = cx.ip
    res = []
    for s, p in outs:
        old = cx.st
        cx.st = s
        tgt = cx.args[i]
        b = ip.deref(s, tgt)
        if b is not None and b[0] == "a" and b[1] == "json::Flat":
            tgt = b[2][0][1][0]
            b = ip.deref(s, tgt)
        if b is not None and b[0] == "a" and b[1] == BLD:
            k, t = b[2][0][1]
            nb = ("a", BLD, ((0, (k, ("t", t[1] + ((("t", tuple(p)) if len(p) == 2 else p[0]),)) if t[0] == "t" else t)),)) if t[0] == "t" else b
            put(cx, tgt, nb)
        else:
            l = ip.labels(b, s)
            for x in p:
                l |= ip.labels(x, s)
            put(cx, tgt, SL(l))
        cx.st = old
        res.append((s, ok(UNIT)))
    return res


@m("serde::ser::SerializeStruct::serialize_field", "serde::ser::SerializeStructVariant::serialize_field")
def ser_field(ip, cx):
    key = strval(cx, cx.args[1])
    t = cx.c["a"][-1]
    return badd(cx, 0, [(s, [key, j]) for s, j in ser_any(cx, cx.st.copy(), cx.args[2], t, 0)])


@m("serde::ser::SerializeStruct::skip_field")
def skip_field(ip, cx):
    return ret(cx, ok(UNIT))


@m("serde::ser::SerializeMap::serialize_entry")
def ser_entry(ip, cx):
    kt, vt = cx.c["a"][-2], cx.c["a"][-1]
    out = []
    for s, k in ser_any(cx, cx.st.copy(), cx.args[1], kt, 0):
        for s2, v in ser_any(cx, s, cx.args[2], vt, 0):
            out.append((s2, [k, v]))
    return badd(cx, 0, out)


@m("serde::ser::SerializeMap::serialize_key")
def ser_key(ip, cx):
    out = []
    for s, k in ser_any(cx, cx.st.copy(), cx.args[1], cx.c["a"][-1], 0):
        out.append((s, [("a", "json::Key", ((0, (k,)),))]))
    return badd(cx, 0, out)


@m("serde::ser::SerializeMap::serialize_value")
def ser_mapvalue(ip, cx):
    """completes the entry whose key was written last"""
    out = []
    for s, j in ser_any(cx, cx.st.copy(), cx.args[1], cx.c["a"][-1], 0):
        tgt = cx.args[0]
        b = ip.deref(s, tgt)
        if b is not None and b[0] == "a" and b[1] == "json::Flat":
            tgt = b[2][0][1][0]
            b = ip.deref(s, tgt)
        old = cx.st
        cx.st = s
        l = b[2][0][1][1] if b is not None and b[0] == "a" and b[1] == BLD else None
        last = l[1][-1] if l is not None and l[0] == "t" and l[1] else None
        if last is not None and last[0] == "a" and last[1] == "json::Key":
            put(cx, tgt, ("a", BLD, ((0, (b[2][0][1][0], ("t", l[1][:-1] + (("t", (last[2][0][1][0], j)),)))),)))
        else:
            put(cx, tgt, SL(ip.labels(b, s) | ip.labels(j, s)))
        cx.st = old
        out.append((s, ok(UNIT)))
    return out


@m(SR + "collect_map", SR + "collect_seq")
def ser_collect(ip, cx):
    """every item the iterator yields, in its order"""
    asmap = cx.np.endswith("map")
    ts = [t for t in cx.c.get("a") or [] if isinstance(t, dict) and t["k"] != "region"]
    it = md.iterate(cx, cx.args[1], ts[-1] if ts else None)
    ct = strip(ts[-1]) if ts else None      # a collection, or an iterator over one: its members are its parameters
    if ct is not None and not ((is_map(ct) or tyname(ct).split("::")[-1] in ("Iter", "IntoIter")) if asmap else tyname(ct).split("::")[-1] in SEQ + ("Iter", "IntoIter")):
        ct = None
    st = cx.st.copy()
    els = [ip.deref(st, x) for x in it[1]] if it is not None and it[0] == "t" and asmap else list(it[1]) if it is not None and it[0] == "t" else None
    r = None
    if els is not None and asmap and all(x is not None and x[0] == "t" and len(x[1]) == 2 for x in els):
        r = ser_map(cx, st, [x[1] for x in els], targ(ct, 0), targ(ct, 1), 0)
    elif els is not None and not asmap:
        r = ser_seq(cx, st, els, targ(ct, 0), 0)
    return sink(cx, 0, r if r is not None else [(st, SL(ip.labels(it, st)))])


@m("serde::ser::SerializeSeq::serialize_element", "serde::ser::SerializeTuple::serialize_element", "serde::ser::SerializeTupleStruct::serialize_field",
   "serde::ser::SerializeTupleVariant::serialize_field")
def ser_elem(ip, cx):
    t = cx.c["a"][-1]
    return badd(cx, 0, [(s, [j]) for s, j in ser_any(cx, cx.st.copy(), cx.args[1], t, 0)])


@m(*["serde::ser::" + x + "::end" for x in ("SerializeStruct", "SerializeMap", "SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeStructVariant", "SerializeTupleVariant")])
def ser_end(ip, cx):
    b = ip.deref(cx.st, cx.args[0])
    if b is not None and b[0] == "a" and b[1] == BLD:
        k, t = b[2][0][1]
        if k == K("seq"):
            return ret(cx, ok(t))
        o = ("a", JOBJ, ((0, (t,)),)) if t[0] == "t" else SL(ip.labels(t))
        if k[0] == "k" and isinstance(k[1], tuple):
            o = t if k[1][2] == "serialize_tuple_variant" else o
            return ret(cx, ok(jobj([(k[1][1], o)])))
        return ret(cx, ok(o))
    if b is not None and b[0] == "a" and b[1] == "json::Flat":
        return ret(cx, ok(UNIT))
    return ret(cx, ok(SL(ip.labels(b, cx.st))))


@m(SR + "serialize_str", SR + "serialize_bool", SR + "serialize_u8", SR + "serialize_u16", SR + "serialize_u32", SR + "serialize_u64", SR + "serialize_i32", SR + "serialize_i64",
   SR + "serialize_char", SR + "serialize_f32", SR + "serialize_f64", SR + "collect_str")
def ser_scalar(ip, cx):
    x = ip.deref(cx.st, cx.args[1])
    if cx.np.endswith("collect_str"):
        return [(s, ok(v)) for s, v in md.display(cx, cx.st, cx.args[1], cx.c["a"][-1])]
    return ret(cx, ok(x if exactv(x) else SL(ip.labels(x, cx.st))))


@m(SR + "serialize_none", SR + "serialize_unit", SR + "serialize_unit_struct")
def ser_null(ip, cx):
    return ret(cx, ok(JNULL))


@m(SR + "serialize_unit_variant")
def ser_uv(ip, cx):
    return ret(cx, ok(strval(cx, cx.args[3])))


@m(SR + "serialize_some", SR + "serialize_newtype_struct")
def ser_some(ip, cx):
    return sink(cx, 0, ser_any(cx, cx.st.copy(), cx.args[-1], cx.c["a"][-1], 0))


@m(SR + "serialize_newtype_variant")
def ser_nv(ip, cx):
    name = strval(cx, cx.args[3])
    return sink(cx, 0, [(s, jobj([(name, j)])) for s, j in ser_any(cx, cx.st.copy(), cx.args[4], cx.c["a"][-1], 0)])


@m("serde::ser::Serialize::serialize", "erased_serde::ser::serialize")
def ser_serialize(ip, cx):
    t = cx.c["a"][0] if cx.c.get("a") else None
    return sink(cx, 1, ser_any(cx, cx.st.copy(), cx.args[0], t if cx.np.startswith("serde") else None, 0))


# ------------------------------------------------------------------ encoders
@m("said::version::format::SerializationFormats::encode", "serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::ser::to_string_pretty", "serde_json::ser::to_vec_pretty")
def encode(ip, cx):
    t = cx.c["a"][0]
    v = cx.args[1] if cx.np.endswith("encode") else cx.args[0]
    out = []
    for s, j in ser_any(cx, cx.st.copy(), v, t, 0):
        if j is None:
            continue
        out.append((s, ok(intern("pretty" if cx.np.endswith("_pretty") else "doc", j))))
    if not cx.np.startswith("said"):
        pass
    return out or [(cx.st, ok(SL(ip.labels(v, cx.st))))]


@m("serde_json::value::to_value", "serde_value::to_value")
def to_value(ip, cx):
    t = cx.c["a"][0]
    return [(s, ok(j)) for s, j in ser_any(cx, cx.st.copy(), cx.args[0], t, 0)]


@m("serde_json::value::Value::as_str")
def as_str(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    if v is not None and v[0] in ("k", "cat", "s"):
        if v[0] == "k" and not isinstance(v[1], str):
            return ret(cx, NONE)
        return ret(cx, some(v))
    if v is not None and v[0] in ("t",) or (v is not None and v[0] == "a" and v[1] in (JOBJ, "json::Null")):
        return ret(cx, NONE)
    return [(cx.st, some(SL(ip.labels(v, cx.st)))), (cx.st.copy(), NONE)]


@m("said::derivation::HashFunction::derive")
def derive(ip, cx):
    v = ip.deref(cx.st, cx.args[1])
    h = ip.deref(cx.st, cx.args[0])
    if doc_of(v) is not None or (v is not None and v[0] in ("k", "cat")):
        return ret(cx, intern("digest", ("t", (h, v))))
    return ret(cx, mark(ip.labels(v, cx.st), "derive"))


@m("cesrox::derivation_code::DerivationCode::full_size")
def full_size(ip, cx):
    return ret(cx, K(44))


@m("alloc::str::repeat")
def s_repeat(ip, cx):
    a, n = strval(cx, cx.args[0]), ip.deref(cx.st, cx.args[1])
    if a is not None and a[0] == "k" and n is not None and n[0] == "k" and isinstance(n[1], int) and n[1] < 500:
        return ret(cx, K(a[1] * n[1]))
    return ret(cx, mark(ip.labels(a) | ip.labels(n), "repeat"))


def text_doc(v):
    """the document a text of constants, symbols inside of strings and whole documents stands for"""
    import json
    if v is None or v[0] not in ("k", "s", "cat"):
        return None
    out, inside, esc, held = "", False, False, []
    for p in (v[1] if v[0] == "cat" else (v,)):
        if p[0] == "k" and isinstance(p[1], str):
            for c in p[1]:
                if inside and esc:
                    esc = False
                elif inside and c == "\\":
                    esc = True
                elif c == '"':
                    inside = not inside
            out += p[1]
            continue
        held.append(p)
        n = chr(0xe100 + len(held) - 1)
        if inside:
            out += "\ue000" + n
        else:
            d = doc_of(p)
            if d is None or d[0] not in ("doc", "pretty"):
                return None
            out += '"\ue001' + n + '"'
    try:
        d = json.loads(out, object_pairs_hook=lambda ps: ("obj", ps))
    except ValueError:
        return None

    def back(x):
        if isinstance(x, tuple):
            return jobj([(back(k), back(y)) for k, y in dict(x[1]).items()])
        if isinstance(x, list):
            return ("t", tuple(back(y) for y in x))
        if x is None:
            return JNULL
        if isinstance(x, str) and x[:1] == "\ue001":
            return doc_of(held[ord(x[1]) - 0xe100])[1]
        if isinstance(x, str) and "\ue000" in x:
            first, *rest = x.split("\ue000")
            ps = [K(first)] if first else []
            for y in rest:
                ps.append(held[ord(y[0]) - 0xe100])
                if y[1:]:
                    ps.append(K(y[1:]))
            return ps[0] if len(ps) == 1 else ("cat", tuple(ps))
        return ("k", x)

    return back(d)


@m("said::ProtocolVersion::new")
def pv_new(ip, cx):
    parts = [ip.deref(cx.st, a) for a in cx.args]
    if all(exactv(p) for p in parts):
        return ret(cx, ok(("t", tuple(parts))))
    return ret(cx, mark(frozenset().union(*[ip.labels(p, cx.st) for p in parts]), "version"))


@m("said::make_me_sad")
def make_sad(ip, cx):
    """the document with a version before it and its identifier in `d`"""
    v = strval(cx, cx.args[0])
    d = doc_of(v)
    d = d[1] if d is not None and d[0] in ("doc", "pretty") else text_doc(v)
    ps, ver = pairs_of(d) if d is not None else None, ip.deref(cx.st, cx.args[2])
    if ps is None or ver is None or ver[0] != "t":
        if d is not None and ps is None:
            return ret(cx, err(mark(ip.labels(v, cx.st), "not-an-object")))
        l = mark(ip.labels(v, cx.st), "make_me_sad")
        return [(cx.st, ok(l)), (cx.st.copy(), err(l))]
    ps = [(K("v"), S("!version"))] + [p for p in ps if p[0] != K("v")]
    if any(k == K("d") for k, _ in ps):
        masked = [(k, K("#" * 44) if k == K("d") else x) for k, x in ps]
        dg = intern("digest", ("t", (SL(ip.labels(cx.args[1], cx.st)), intern("doc", jobj(masked)))))
        ps = [(k, dg if k == K("d") else x) for k, x in ps]
    return ret(cx, ok(intern("doc", jobj(ps))))


@m("said::version::SerializationInfo::new", "said::version::SerializationInfo::new_empty")
def si_new(ip, cx):
    parts = [ip.deref(cx.st, a) for a in cx.args]
    if all(exactv(p) or (p is not None and p[0] == "a") for p in parts):
        return ret(cx, intern("version", ("t", tuple(parts))))
    l = frozenset()
    for p in parts:
        l |= ip.labels(p, cx.st)
    return ret(cx, mark(l, "version"))


@m("said::version::SerializationInfo::serialize")
def si_ser(ip, cx):
    return ret(cx, ok(ip.deref(cx.st, cx.args[0])))


# ------------------------------------------------------------------ ordering
ORDERING = "core::cmp::Ordering"


def cmp_value(cx, st, a, b):
    a, b = deref(cx, st, a), deref(cx, st, b)
    if a is None or b is None:
        return None
    if exactv(a) and exactv(b):
        ka, kb = skey(a), skey(b)
        return (ka > kb) - (ka < kb)
    if a[0] == "t" and b[0] == "t":
        for x, y in zip(a[1], b[1]):
            c = cmp_value(cx, st, x, y)
            if c is None or c:
                return c
        return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
    if a[0] == "a" and b[0] == "a" and a[1] == b[1] and len(a[2]) == 1 and len(b[2]) == 1:
        if a[2][0][0] != b[2][0][0]:
            return (a[2][0][0] > b[2][0][0]) - (a[2][0][0] < b[2][0][0])
        return cmp_value(cx, st, ("t", a[2][0][1]), ("t", b[2][0][1]))
    return None


def ordering(n):
    return ("a", ORDERING, ((n + 1, ()),))


_ord = md.M["core::cmp::Ord::cmp"]


@m("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def o_cmp(ip, cx):
    if getattr(ip, "sorting", 0):
        c = cmp_value(cx, cx.st, cx.args[0], cx.args[1])
        if c is not None:
            o = ordering(c)
            return ret(cx, o if cx.np.endswith("::cmp") else some(o))
    return _ord(ip, cx)


@m("core::cmp::Ordering::reverse")
def o_rev(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    if v is not None and v[0] == "a" and len(v[2]) == 1:
        return ret(cx, ("a", v[1], ((2 - v[2][0][0], ()),)))
    return ret(cx, v)


_sort = md.M["alloc::slice::sort"] if "alloc::slice::sort" in md.M else None


def sort_exact(ip, cx, els, n, f):
    """-> sorted elements or None"""
    if n in ("sort", "sort_unstable"):
        ks = [(deref(cx, cx.st, e), e) for e in els]
        if any(cmp_value(cx, cx.st, a, b) is None for a, _ in ks for b, _ in ks):
            return None
        return [e for _, e in sorted(ks, key=functools.cmp_to_key(lambda x, y: cmp_value(cx, cx.st, x[0], y[0])))]
    if f is None:
        return None
    bad = []
    ip.sorting = getattr(ip, "sorting", 0) + 1
    try:
        def by_key(e):
            a_ = [tmp(cx, "sk", e)]
            rs = ip.invoke(cx.st.copy(), f, a_, (cx.site[0], "sortkey"), cx.fid, cx.chain)
            if len(rs) != 1 or rs[0][1] is None:
                bad.append(1)
                return None
            return deref(cx, rs[0][0], rs[0][1])

        def by_cmp(a, b):
            st0 = cx.st
            a_ = [tmp(cx, "sa", a), tmp(cx, "sb", b)]
            rs = ip.invoke(cx.st.copy(), f, a_, (cx.site[0], "sortcmp"), cx.fid, cx.chain)
            vals = {v for _, v in rs}
            if len(vals) != 1:
                bad.append(1)
                return 0
            v = next(iter(vals))
            if v is None or v[0] != "a" or v[1] != ORDERING or len(v[2]) != 1:
                bad.append(1)
                return 0
            return v[2][0][0] - 1
        if "key" in n:
            ks = [(by_key(e), e) for e in els]
            if bad or any(cmp_value(cx, cx.st, a, b) is None for a, _ in ks for b, _ in ks):
                return None
            r = [e for _, e in sorted(ks, key=functools.cmp_to_key(lambda x, y: cmp_value(cx, cx.st, x[0], y[0])))]
        else:
            r = sorted(els, key=functools.cmp_to_key(by_cmp))
        return None if bad else r
    finally:
        ip.sorting -= 1


def do_sort(ip, cx):
    v = dv(cx, 0)
    n = cx.np.split("::")[-1]
    if v is not None and v[0] == "t" and n.startswith("sort"):
        r = sort_exact(ip, cx, list(v[1]), n, ip.deref(cx.st, cx.args[1]) if len(cx.args) > 1 else None)
        if r is not None:
            store(cx, 0, ("t", tuple(r)))
            return ret(cx, UNIT)
    return md.c_sort(ip, cx)


for _k in list(md.M):
    if md.M[_k] is md.c_sort and "sort" in _k:
        md.M[_k] = do_sort


@m("core::bool::then", "core::bool::then_some")
def b_then(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    out = []
    for truth in (True, False):
        s = cx.st.copy()
        if v is not None and v[0] == "k":
            if bool(v[1]) != truth:
                continue
        elif not ip.assume(s, v, truth):
            continue
        if not truth:
            out.append((s, NONE))
        elif cx.np.endswith("then_some"):
            out.append((s, some(cx.args[1])))
        else:
            out += [(s2, some(r)) for s2, r in ip.invoke(s, cx.args[1], [], (cx.site[0], "then"), cx.fid, cx.chain)]
    return out
