"""What is written as JSON is read back unchanged."""
from base import *
import apply as ap
import bundle as bd
import rebuild as rb
import seal
import sermodels as sm
import demodels as dm
from models import tyname, is_map, unordered

NT = OA + "attributes::NestedAttrType"
DYN = bd.OB + "state::oca::overlay::Overlay"


def reader(r, t):
    """the Deserialize implementation of a type given by path (or the one of overlay objects)"""
    fn = next((f for s, f in r.F.impls.get(("serde::de::Deserialize", "deserialize"), [])
               if (s["k"] == "adt" and s["p"] == t) or (t == DYN and "dyn " in s["s"] and DYN in s["s"])), None)
    if fn is None:
        raise Missing(f"no Deserialize implementation for {t}")
    return fn


def parse(r, t, doc, hash_rev=False):
    """every result of reading a document as a workspace type -> (function, [result value], panics)"""
    fn = reader(r, t)
    outs = r.run(fn, [dm.node(dm.DE, doc)], hash_rev=hash_rev)
    return fn, [v for _, v in outs], sorted({str(k[1]) for k in r.ip.panics})


# fields that are by design not part of the JSON: restored from elsewhere or never filled
SKIPPED = {"frame_meta", "_category_attributes"}


def fieldcover(r, adt, f, name, depth):
    if f["n"] in SKIPPED:
        return [mp()]
    if adt.endswith("::MetaOverlay") and f["n"] == "attr_pairs":    # written next to the fields of the overlay
        return [mp((K("name"), S("!n")), (K("description"), S("!d")), (K("x"), S("!x")))]
    return cover(r, f["t"], name, depth)


_bundle = {}


def bundle_value(r):
    if id(r.F) not in _bundle:
        _bundle[id(r.F)] = bd.gen(r, source(r))[0]
    return _bundle[id(r.F)]


def typed(r, a, t):
    i = [x["n"] for x in r.F.adts[a[1]]["v"][0]["f"]].index("attribute_type")
    fs = list(a[2][0][1])
    fs[i] = some(t)
    return ("a", a[1], ((0, tuple(fs)),))


def types(r):
    F = r.F
    val = lambda n: variant(F, NT, "Value", variant(F, OA + "AttributeType", n))
    arr = lambda x: variant(F, NT, "Array", x)
    ref = lambda n: variant(F, NT, "Reference", variant(F, OA + "RefValue", "Said", S("!SAID" + n)))
    return {"text": val("Text"), "numbers": arr(val("Numeric")), "ref": ref("x"), "refs": arr(arr(ref("y"))), "date": val("DateTime")}


def source(r):
    """a box with every kind of metadata, attribute types of every shape"""
    T = types(r)
    A = lambda a, t, **kw: typed(r, rb.attribute(r, a, **kw), T[t])
    meta = some(mp((rb.ENG, mp((K("name"), S("!m1")), (K("description"), S("!m2")))), (rb.FRA, mp((K("name"), S("!m3"))))))
    return ap.box(r, [A("a", "text", langs=(rb.ENG, rb.FRA), targets=("1", "2"), fids=("1", "2")), A("b", "numbers", codes="Object", entry="Sai", enc="Base64"),
                      ap.attr(r, sym("c"), attribute_type=some(T["ref"]), is_flagged=TRUE), A("d", "refs", langs=(rb.FRA,), codes="Sai", enc="Utf16", targets=("2",), fids=("2",)),
                      ap.attr(r, sym("e"), attribute_type=some(T["date"]), is_flagged=TRUE)], meta=meta, classification=some(S("!cls")))


# ------------------------------------------------------------------ values of every type that is written and read
def cover(r, t, name, depth=0):
    """values of a type in which every variant and every field occurs"""
    F = r.F
    n = tyname(t)
    a = [x for x in t.get("a") or [] if isinstance(x, dict)]
    last = n.split("::")[-1]
    if n == OPTION:
        return [some(v) for v in cover(r, a[0], name, depth)] + ([NONE] if depth < 2 else [])
    if n in (interp.BOX, "alloc::sync::Arc", "alloc::rc::Rc"):
        return cover(r, a[0], name, depth)
    if n == "said::SelfAddressingIdentifier":
        return [S("!SAID" + name)]
    if n.startswith("isolang::"):
        return [rb.ENG, rb.FRA]
    if is_map(t):
        ks = [cover(r, a[0], f"{name}.k{i}", depth + 1) for i in "123"]
        if ks[0][0] == rb.ENG:
            ks = [[rb.ENG], [rb.FRA]]
        vs = cover(r, a[1], name + ".v", depth + 1)
        keys = [K(i) for i in range(3)] if ks[0][0] == K(7) else [k[0] for k in ks]
        wide = max(len(keys), 1)
        out = []
        for i in range(0, max(len(vs), 1), wide):
            grp = [cover(r, a[1], f"{name}.v{j}", depth + 1)[min(i + j, len(vs) - 1)] for j in range(wide)]
            out.append(mp(*zip(keys, grp)))
        return out + ([mp()] if depth < 2 else [])
    if last in ("Vec", "HashSet", "BTreeSet"):
        m = len(cover(r, a[0], name, depth + 1))
        return [vec(*[cover(r, a[0], f"{name}.e{i}", depth + 1)[i % m] for i in range(max(2, m))])] + ([vec()] if depth < 2 else [])
    if t["s"] in ("usize", "u8", "u32", "u64", "i64"):
        return [K(7)]
    if t["s"] == "bool":
        return [TRUE, FALSE]
    ad = F.adts.get(n)
    if n == bd.OB + "state::oca::OCABundle":
        return [bundle_value(r)]
    if ad and ad["local"]:
        out = []
        for i, v in enumerate(ad["v"]):
            if n == OA + "OverlayType":
                out.append(("a", n, ((i, (K("1.1"),)),)))
                continue
            if n in (NT, OA + "NestedValue", "oca_ast_transformation::ast::NestedValue") and depth > 4 and v["n"] in ("Array", "Object"):
                continue
            if n.endswith("::NestedValue") and v["n"] == "Value":      # text that does not look like a reference
                out += [("a", n, ((i, (x,)),)) for x in (S("!" + name), K(""), K("un deux: trois"), K("say: \"x\" \\ é"))]
                continue
            fs = [fieldcover(r, n, f, f"{name}.{f['n']}" if ad["kind"] == "struct" else name, depth + 1) for f in v["f"]]
            for j in range(max([len(x) for x in fs] + [1])):
                out.append(("a", n, ((i, tuple(x[j % len(x)] for x in fs)),)))
        return out
    return [S("!*" + name)]


def reads_back(r, key, t, v, what):
    """writing v and reading it again gives v, in every case"""
    doc = seal.emit(r, v)
    fn = reader(r, t)
    w = r.where(fn)
    if not r.ob(key + ":written", doc is not None, w, f"the JSON of {what} is not determined by it"):
        return None, None
    fn, outs, pn = parse(r, t, doc)
    r.ob(key + ":total", not pn, w, f"reading {what} can panic: {pn}")
    bad = [o for o in outs if only(o, 0) is None]
    if not r.ob(key + ":accepted", outs and not bad, w, f"{what} cannot always be read back: {[pv(r.F, o)[:300] for o in bad]}"):
        return None, None
    return doc, only(outs[0], 0) if len(outs) == 1 else None


def read_same(r, key, t, v, what):
    doc, got = reads_back(r, key, t, v, what)
    if doc is None:
        return
    if got is None:
        r.ob(key, False, "", f"{what} is not read back as one value")
        return
    r.eq(key, got, v, r.where(reader(r, t)), f"{what} read back")


def skip_fields(F, v):
    if v is None:
        return v
    if v[0] == "a":
        ad = F.adts.get(v[1])
        out = []
        for i, fs in v[2]:
            ns = [x["n"] for x in ad["v"][i]["f"]] if ad and v[1] not in (OPTION, RESULT) and len(ad["v"][i]["f"]) == len(fs) else [""] * len(fs)
            out.append((i, tuple(mp() if n in SKIPPED else skip_fields(F, x) for n, x in zip(ns, fs))))
        return ("a", v[1], tuple(out))
    if v[0] == "t":
        return ("t", tuple(skip_fields(F, x) for x in v[1]))
    if v[0] == "m":
        return ("m", tuple((k, skip_fields(F, x)) for k, x in v[1]), v[2])
    return v


def box_of(r, b):
    """the box a bundle is turned into"""
    outs = r.run(r.method("oca::OCABox", "from", trait="From", targ="OCABundle"), [b])
    v = outs[0][1] if outs else None
    for _, x in outs[1:]:
        v = r.ip.join(v, x)
    return v


def bundle_one(r, pre, b, okey):
    """a bundle is read back from its JSON as the same bundle"""
    F = r.F
    BT = bd.OB + "state::oca::OCABundle"
    w = r.where(reader(r, BT))
    doc, got = reads_back(r, pre, BT, b, "a bundle")
    if got is None:
        r.ob(pre + ":one-value", False, w, "a bundle is not read back as one value")
        return
    for f in sorted((f for f in F.fns.values() if f.name == "load_oca" and f.p.startswith(bd.OB) and f.body), key=lambda f: f.p):
        outs = r.run(f, [Ref(sm.intern("doc", doc), "source")])
        r.ob(pre + ":loaded", not r.ip.panics and len(outs) == 1 and only(outs[0][1], 0) is not None and same_val(only(outs[0][1], 0), got), r.where(f), f"a bundle is loaded as {[pv(F, v)[:200] for _, v in outs]} {sorted(r.ip.panics)}")
    for f in ("said", "capture_base"):
        r.eq(f"{pre}:{f}", field(F, got, f), field(F, b, f), w, f"{f} of a bundle that was written and read back")
    ov, o2 = field(F, b, "overlays"), field(F, got, "overlays")
    if r.ob(pre + ":overlays-known", o2 is not None and o2[0] == "t", w, f"the overlays read back are not determined: {pv(F, o2)[:300]}"):
        nm = lambda o: (o[1].split("::")[-1], pv(F, okey(r, o)[1]) if isinstance(okey(r, o)[1], tuple) else "")
        d1, d2 = {}, {}
        for o in ov[1]:
            d1.setdefault(nm(o), []).append(o)
        for o in o2[1]:
            d2.setdefault(nm(o), []).append(o)
        for k in sorted(d1):
            r.ob(f"{pre}:overlay:{k[0]}:{k[1]}:count", len(d2.get(k, [])) == len(d1[k]), w, f"{len(d1[k])} overlays {k} are written, {len(d2.get(k, []))} are read back")
            if len(d2.get(k, [])) == 1 == len(d1[k]):
                r.eq(f"{pre}:overlay:{k[0]}:{k[1]}", d2[k][0], skip_fields(F, d1[k][0]), w, f"overlay {k} read back")
        r.ob(pre + ":overlays-no-more", set(d2) <= set(d1), w, f"overlays appear that were not written: {sorted(set(d2) - set(d1))}")
    again = seal.emit(r, got)
    r.ob(pre + ":same-json", again is not None and again == doc, w, "a bundle that was read back is written differently: " + ("" if again is None else "; ".join(vdiff(F, again, doc))[:800]))
    # what a builder starts from is the same, whether or not the bundle was stored in between
    b1, b2 = box_of(r, b), box_of(r, got)
    r.ob(pre + ":box", b1 is not None and b2 is not None, w, "the box of a bundle is not determined")
    if b1 is not None and b2 is not None:
        for f in ("attributes", "meta", "classification"):
            r.eq(f"{pre}:box:{f}", field(F, b2, f), field(F, b1, f), w, f"{f} the builder starts from, for a bundle that was read back")


def bundle_json(r):
    F = r.F
    b = bundle_value(r)
    if not r.ob("read:bundle:generated", b is not None, "", "no bundle is generated"):
        return
    BT = bd.OB + "state::oca::OCABundle"
    bundle_one(r, "read:bundle", b, bd.okey)
    # values of every type found in bundles
    for t in ("oca_ast_semantics::ast::attributes::NestedAttrType", "oca_ast_semantics::ast::OverlayType", bd.OB + "state::encoding::Encoding", bd.OB + "state::entry_codes::EntryCodes",
              bd.OB + "state::entries::EntriesElement", bd.OB + "state::oca::capture_base::CaptureBase"):
        if t not in F.adts:
            raise Missing(f"type {t}")
        for i, v in enumerate(cover(r, {"k": "adt", "p": t, "s": t, "a": []}, "v")):
            read_same(r, f"read:value:{t.split('::')[-1]}:{vname(F, v)}:{i}", t, v, f"{t.split('::')[-1]} {pv(F, v)[:80]}")
    OT = OA + "OverlayType"
    for i, x in enumerate(F.adts[OT]["v"]):
        read_same(r, f"read:version:{x['n']}", OT, ("a", OT, ((i, (K("12.34"),)),)), f"overlay type {x['n']} 12.34")
    # every kind of overlay, read without knowing which kind it is
    for p in kinds(r):
        n = p.split("::")[-1]
        vs = cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v")
        ot = overlay_variant(r, p)
        if not r.ob(f"read:kind:{n}:type", ot is not None, p, f"which overlay type {n} stands for is not determined"):
            continue
        vs = [setf(F, v, "overlay_type", ot) for v in vs]
        for i, v in enumerate({repr(v): v for v in vs}.values()):
            if n == "StandardOverlay":      # the names of standards are parsed: only their reading as one kind is decided
                v = setf(F, v, "attribute_standards", mp())
            if any(field(F, v, x) == NONE for x in ("said", "capture_base")):
                continue
            read_same(r, f"read:kind:{n}:{i}", DYN, v, f"{n}")
            if not i or i == len(vs) - 1:      # the same as the only overlay of a bundle
                doc, got = reads_back(r, f"read:bundle-of:{n}:{i}", BT, setf(F, b, "overlays", ("t", (v,))), f"a bundle with only a {n}")
                if doc is not None:
                    r.eq(f"read:bundle-of:{n}:{i}", field(F, got, "overlays") if got is not None else None, ("t", (skip_fields(F, v),)), r.where(reader(r, BT)), f"the overlays of a bundle with only a {n} read back")
    # metadata next to the fields of its overlay
    MO = bd.OB + "state::oca::overlay::meta::MetaOverlay"
    base_ = cover(r, {"k": "adt", "p": MO, "s": MO, "a": []}, "v")[0]
    base_ = setf(F, setf(F, base_, "overlay_type", overlay_variant(r, MO)), "attr_pairs", mp())
    ps = sm.pairs_of(seal.emit(r, base_)) or ()
    for k, _ in ps:
        v = setf(F, base_, "attr_pairs", mp((k, S("!value"))))
        read_same(r, f"read:meta-named:{k[1] if k[0] == 'k' else k}", DYN, v, f"metadata named {pv(F, k)}")


def vname(F, v):
    ad = F.adts.get(v[1]) if v[0] == "a" else None
    return ad["v"][v[2][0][0]]["n"] if ad and ad["kind"] == "enum" else ""


def kinds(r):
    return sorted({t["p"] for t, _ in r.F.impls.get((DYN, "add"), []) if t["k"] == "adt"})


def setf(F, v, f, x):
    ns = [y["n"] for y in F.adts[v[1]]["v"][v[2][0][0]]["f"]]
    fs = list(v[2][0][1])
    fs[ns.index(f)] = x
    return ("a", v[1], ((v[2][0][0], tuple(fs)),))


def overlay_variant(r, p):
    """the overlay type the constructor of an overlay gives it"""
    F = r.F
    for fn in F.method(p, "new"):
        args = []
        for i in range(fn.body.argc):
            t = fn.body.locals[i + 1]
            args.append(cover(r, t, f"arg{i}")[0] if t["k"] != "ref" else Ref(S("!arg"), f"arg{i}"))
        outs = r.run(fn, args)
        vs = {field(F, v, "overlay_type") for _, v in outs if v is not None and v[0] == "a"}
        if len(vs) == 1:
            return next(iter(vs))
    return None


# ------------------------------------------------------------------ documents nobody wrote
def mutants(doc, path=()):
    """the document with one node replaced or left out"""
    WRONG = (K("?"), sm.JNULL, ("t", ()), sm.jobj([]), K(7), ("t", (sm.jobj([]),)), ("t", (K("?"),)))
    for x in WRONG:
        if x != doc:
            yield path, x
    ps = sm.pairs_of(doc)
    if ps is not None:
        for i, (k, v) in enumerate(ps):
            yield path + (k,), sm.jobj(ps[:i] + ps[i + 1:])
            for p, d in mutants(v, path + (k,)):
                yield p, sm.jobj(list(ps[:i]) + [(k, d)] + list(ps[i + 1:]))
    elif doc[0] == "t":
        for i, v in enumerate(doc[1]):
            for p, d in mutants(v, path + (K(i),)):
                yield p, ("t", doc[1][:i] + (d,) + doc[1][i + 1:])


def no_panic(r, key, t, doc, what):
    F = r.F
    w = r.where(reader(r, t))
    n, bad = 0, {}
    for p, d in mutants(doc):
        n += 1
        _, _, pn = parse(r, t, d)
        for x in pn:
            bad.setdefault(x, (p, d))
    r.ob(key, not bad, w, f"reading {what} that is malformed can panic: " + "; ".join(f"{x} when {'.'.join(pv(F, k) for k in p)} is wrong" for x, (p, d) in list(bad.items())[:4]))
    r.notes.append(f"{key}: {n} malformed documents")


def without(doc, k, x=None):
    """the object without a key, or with another value for it"""
    ps = sm.pairs_of(doc)
    return sm.jobj([(a, x if a == K(k) else b) for a, b in ps if a != K(k) or x is not None])


def rejected(r, key, t, doc, what):
    fn, outs, pn = parse(r, t, doc)
    ok = [v for v in outs if only(v, 1) is None]
    r.ob(key, outs and not ok and not pn, r.where(fn), f"{what} must be reported as an error" + (f", it can panic: {pn}" if pn else f", it can be read as {[pv(r.F, v)[:200] for v in ok]}"))


def rejects(r):
    """documents that are not what they are read as are errors"""
    F = r.F
    BT = bd.OB + "state::oca::OCABundle"
    CT = OA + "Command"
    for p in kinds(r):
        n = p.split("::")[-1]
        ot = overlay_variant(r, p)
        doc = seal.emit(r, setf(F, cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v")[0], "overlay_type", ot)) if ot else None
        if not r.ob(f"reject:{n}:written", doc is not None, p, f"the JSON of {n} is not determined"):
            continue
        rejected(r, f"reject:{n}:no-type", DYN, without(doc, "type"), f"{n} without type")
        for x in (K("spec/overlays/nothing/1.1"), K("spec/overlays/label"), K("label/1.1"), K(7), sm.JNULL):
            rejected(r, f"reject:{n}:type:{pv(F, x)[:40]}", DYN, without(doc, "type", x), f"{n} with type {pv(F, x)}")
        full = dict(sm.pairs_of(doc)).get(K("type"))
        if r.ob(f"reject:{n}:type-text", full is not None and full[0] == "k" and isinstance(full[1], str), p, f"the text of the type of {n} is not determined"):
            f = full[1]
            for x in ("x" + f, f + "x", f + "/1", f + "\n", " " + f, f.upper(), f.rsplit("/", 1)[0], f.rsplit(".", 1)[0], f.rsplit(".", 1)[0] + ".", f.split("/", 1)[1], ""):
                rejected(r, f"reject:{n}:type:{x!r}", DYN, without(doc, "type", K(x)), f"{n} with type {x!r}")
        for x in (K("?"), ("t", ()), sm.JNULL, K(7)):
            rejected(r, f"reject:{n}:document:{pv(F, x)[:40]}", DYN, x, f"{pv(F, x)} as an overlay")
        for k in ("d", "capture_base"):
            for x in (K("?"), K(""), K(7)):
                rejected(r, f"reject:{n}:{k}:{pv(F, x)}", DYN, without(doc, k, x), f"{n} with {pv(F, x)} as {k}")
        for k, v in sm.pairs_of(doc):
            if sm.pairs_of(v) is not None:
                rejected(r, f"reject:{n}:{k[1]}:text", DYN, without(doc, k[1], K("?")), f"{n} with a text as {k[1]}")
    b = bundle_value(r)
    doc = seal.emit(r, b) if b is not None else None
    if r.ob("reject:bundle:written", doc is not None, "", "the JSON of a bundle is not determined"):
        for k in ("capture_base", "overlays"):
            rejected(r, f"reject:bundle:no-{k}", BT, without(doc, k), f"a bundle without {k}")
            for x in (K("?"), sm.JNULL, K(7)):
                rejected(r, f"reject:bundle:{k}:{pv(F, x)[:20]}", BT, without(doc, k, x), f"a bundle with {pv(F, x)} as {k}")
        cb = dict(sm.pairs_of(doc))[K("capture_base")]
        for x in (K("?"), sm.JNULL, sm.jobj([(K("a"), K("NoType"))]), sm.jobj([(K("a"), ("t", ()))]), sm.jobj([(K("a"), ("t", (K("NoType"),)))]), sm.jobj([(K("a"), K(7))])):
            rejected(r, f"reject:bundle:attributes:{pv(F, x)[:60]}", BT, without(doc, "capture_base", without(cb, "attributes", x)), f"a bundle with attributes {pv(F, x)}")
        names = [v["n"] for v in F.adts[OA + "AttributeType"]["v"]]
        for t in names:
            for x in (t.lower(), t.upper(), " " + t, t + " ", t + "s", t + "[]", f"[{t}]", t[:-1]):
                if x not in names:
                    rejected(r, f"reject:NestedAttrType:{x!r}", OA + "attributes::NestedAttrType", K(x), f"{x!r} as an attribute type")
                    rejected(r, f"reject:NestedAttrType:[{x!r}]", OA + "attributes::NestedAttrType", ("t", (K(x),)), f"an array of {x!r} as an attribute type")
        for x in ("", "refs", "refn", "refs:", "refs:?", "REFN:a", "Refs:a", " refn:a", "ref:a", "refx:a", "é", "rééé"):
            rejected(r, f"reject:NestedAttrType:{x!r}", OA + "attributes::NestedAttrType", K(x), f"{x!r} as an attribute type")
    for v in cover(r, {"k": "adt", "p": CT, "s": CT, "a": []}, "v"):
        k = kindname(F, field(F, v, "object_kind"))
        doc = seal.emit(r, v)
        if not r.ob(f"reject:Command:{k}:written", doc is not None, CT, f"the JSON of a command on {k} is not determined"):
            continue
        for f in ("type", "object_kind"):
            rejected(r, f"reject:Command:{k}:no-{f}", CT, without(doc, f), f"a command on {k} without {f}")
            was = dict(sm.pairs_of(doc)).get(K(f))
            for x in ((was[1].lower(), was[1].upper(), " " + was[1], was[1] + " ", was[1] + "s", was[1][:-1]) if was is not None and was[0] == "k" and isinstance(was[1], str) else ()):
                rejected(r, f"reject:Command:{k}:{f}:{x!r}", CT, without(doc, f, K(x)), f"a command on {k} with {f} {x!r}")
            for x in (K("?"), sm.JNULL, K(7)):
                rejected(r, f"reject:Command:{k}:{f}:{pv(F, x)[:20]}", CT, without(doc, f, x), f"a command on {k} with {f} {pv(F, x)}")
    for x in (K("refs"), K("?"), K("what:abc"), K(7), sm.JNULL, K(""), K("refs:"), K("refs:?"), K("REFN:a"), K(" refn:a"), K("refx:a"), K(":a")):
        rejected(r, f"reject:RefValue:{pv(F, x)[:20]}", OA + "RefValue", x, f"{pv(F, x)} as a reference")


def malformed(r):
    F = r.F
    BT = bd.OB + "state::oca::OCABundle"
    for p in kinds(r):
        n = p.split("::")[-1]
        ot = overlay_variant(r, p)
        v = cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v")[0]
        if ot is None:
            r.ob(f"malformed:{n}", False, p, f"which overlay type {n} stands for is not determined")
            continue
        doc = seal.emit(r, setf(F, v, "overlay_type", ot))
        if r.ob(f"malformed:{n}:written", doc is not None, p, f"the JSON of {n} is not determined"):
            no_panic(r, f"malformed:{n}", DYN, doc, n)
    T = types(r)
    bx = ap.box(r, [ap.attr(r, sym("a"), attribute_type=some(T["refs"]), unit=some(S("!unit")), labels=some(mp((rb.ENG, S("!l1")), (rb.FRA, S("!l2")))))])
    b, w = bd.gen(r, bx)
    doc = seal.emit(r, b) if b is not None else None
    if r.ob("malformed:bundle:written", doc is not None, w, "the JSON of a bundle is not determined"):
        no_panic(r, "malformed:bundle", BT, doc, "a bundle")
    CT = OA + "Command"
    vs = cover(r, {"k": "adt", "p": CT, "s": CT, "a": []}, "v")
    seen = set()
    for v in vs:
        k = vname(F, field(F, v, "object_kind"))
        if k in seen:
            continue
        seen.add(k)
        no_panic(r, f"malformed:Command:{k}", CT, seal.emit(r, v), f"a command on {k}")


def commands_json(r):
    F = r.F
    for t in (OA + "Command", OA + "OCAAst", "oca_ast_transformation::ast::Command", "oca_ast_transformation::ast::TransformationAST", "transformation_file::state::Transformation",
              OA + "RefValue", OA + "NestedValue", OA + "CommandType", OA + "attributes::NestedAttrType"):
        if t not in F.adts:
            raise Missing(f"type {t}")
        for i, v in enumerate(cover(r, {"k": "adt", "p": t, "s": t, "a": []}, "v")):
            n = t.split("::")[0] + "::" + t.split("::")[-1]
            k = vname(F, v)
            if t.endswith("::Command"):
                o = field(F, v, "object_kind")
                k = vname(F, o) + (":" + vname(F, o[2][0][1][0]) if vname(F, o) == "Overlay" else "")
            read_same(r, f"command:{n}:{k}:{i}", t, v, f"{n} {k}")
    # texts that look like references
    for t in (OA, "oca_ast_transformation::ast::"):
        NV = t + "NestedValue"
        if NV not in F.adts:
            raise Missing(f"type {NV}")
        for k, x in (("refn", text(K("refn:"), S("!name"))), ("refs", text(K("refs:"), S("!SAIDx")))):
            read_same(r, f"command:{t.split('::')[0]}:text-like-{k}", NV, variant(F, NV, "Value", x), f"the text `{k}:…`")
    codes(r)


def codes(r):
    """numeric codes of object kinds: distinct, and read back as the same kind"""
    F = r.F
    for t in (OA + "ObjectKind", "oca_ast_transformation::ast::ObjectKind"):
        n = t.split("::")[0]
        to = next((f for s, f in F.impls.get(("core::convert::From", "from"), []) if s["s"] == "u8" and any(x.get("p") == t for x in f.targs)), None)
        back = next((f for s, f in F.impls.get(("core::convert::From", "from"), []) if s.get("p") == t and any(x["s"] == "u8" for x in f.targs)), None)
        if to is None or back is None:
            raise Missing(f"conversions between u8 and {t}")
        seen = {}
        for v in cover(r, {"k": "adt", "p": t, "s": t, "a": []}, "v"):
            i, fs = v[2][0]
            k = kindname(F, v)
            cs = {x for _, x in r.run(to, [v])}
            c = next(iter(cs)) if len(cs) == 1 else None
            if not r.ob(f"code:{n}:{k}", c is not None and c[0] == "k", r.where(to), f"the code of {k} is not determined"):
                continue
            r.ob(f"code:{n}:{k}:own", seen.setdefault(c, k) == k, r.where(to), f"{k} and {seen[c]} have the same code {c[1]}")
            ks = {kindname(F, x) if x is not None and x[0] == "a" and len(x[2]) == 1 else "?" for _, x in r.run(back, [c])}
            r.ob(f"code:{n}:{k}:back", ks == {k}, r.where(back), f"code {c[1]} of {k} is read as {sorted(ks)}")


def kindname(F, v):
    i, fs = v[2][0]
    k = vname(F, v)
    if k == "Overlay":
        o = fs[0]
        k += ":" + vname(F, o) if o[0] == "a" and len(o[2]) == 1 else ":?"
    return k
