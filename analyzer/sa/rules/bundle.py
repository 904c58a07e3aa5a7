"""Box -> bundle, bundle -> box, sealing."""
from base import *
import apply as ap

OV = OB + "state::oca::overlay::"
L1, L2 = S("!lang1"), S("!lang2")

# attribute field -> (overlay struct, overlay type, language-like field, map field)
PER_ATTR = {
    "encoding": ("CharacterEncodingOverlay", "CharacterEncoding", "attribute_character_encoding"),
    "format": ("FormatOverlay", "Format", "attribute_formats"),
    "conformance": ("ConformanceOverlay", "Conformance", "attribute_conformance"),
    "cardinality": ("CardinalityOverlay", "Cardinality", "attribute_cardinality"),
    "condition": ("ConditionalOverlay", "Conditional", "attribute_conditions"),
    "unit": ("UnitOverlay", "Unit", "attribute_unit"),
    "entry_codes": ("EntryCodeOverlay", "EntryCode", "attribute_entry_codes"),
}
PER_KEY = {
    "entries": ("EntryOverlay", "Entry", "language", "attribute_entries"),
    "labels": ("LabelOverlay", "Label", "language", "attribute_labels"),
    "informations": ("InformationOverlay", "Information", "language", "attribute_information"),
    "links": ("LinkOverlay", "Link", "target_bundle", "attribute_mapping"),
}
FRAMING = ("AttributeFramingOverlay", "AttributeFraming", "metadata", "attribute_framing")
META = ("MetaOverlay", "Meta", "language", "attr_pairs")
FS = OV + "attribute_framing::FramingScope"
OVPATH = {"CharacterEncodingOverlay": "character_encoding", "FormatOverlay": "format", "ConformanceOverlay": "conformance", "CardinalityOverlay": "cardinality",
          "ConditionalOverlay": "conditional", "UnitOverlay": "unit", "EntryCodeOverlay": "entry_code", "EntryOverlay": "entry", "LabelOverlay": "label",
          "InformationOverlay": "information", "LinkOverlay": "link", "AttributeFramingOverlay": "attribute_framing", "MetaOverlay": "meta"}


def scope(r, a, t, meta=None):
    return struct(r.F, FS, "", predicate_id=S(f"!{a}.p{t}"), framing_justification=S(f"!{a}.j{t}"),
                  frame_meta=mp((K("frame_label"), S("!*flabel")), (K("frame_version"), S("!*fver"))) if meta is None else meta)


def framing(r, a, meta=None):
    return mp(*[(S(f"!{a}.t{t}"), scope(r, a, t, meta)) for t in "12"])


def cond(a):
    """a condition that refers to two attributes, one of them twice, and its dependencies"""
    return ("cat", (K("${0} > "), S(f"!{a}.condition"), K(" or ${1} < ${0}"))), vec(S(f"!{a}.dep1"), S(f"!{a}.dep2"))


def fval(a, f):
    """metadata value of kind f of attribute a"""
    return cond(a)[0] if f == "condition" else S(f"!*{a}.{f}")


def full(r, a, langs=(L1,)):
    kw = {f: some(fval(a, f)) for f in PER_ATTR}
    kw["dependencies"] = some(cond(a)[1])
    kw["attribute_type"] = some(S(f"!{a}.type"))
    for f in ("entries", "labels", "informations"):
        kw[f] = some(mp(*[(l, S(f"!*{a}.{f}" + next(iter(l[1])))) for l in langs]))
    kw["links"] = some(mp(*[(S("!target" + next(iter(l[1]))), S(f"!*{a}.links" + next(iter(l[1])))) for l in langs]))
    kw["framings"] = some(mp((S("!fid"), framing(r, a))))
    return ap.attr(r, sym(a), is_flagged=FALSE, **kw)


def expected(r, attrs):
    """{(overlay struct, key): {field: value}} for attrs = {name: langs}"""
    exp = {}
    for f, (st, ty, fld) in PER_ATTR.items():
        e = {fld: mp(*[(sym(a), fval(a, f)) for a in attrs])}
        if f == "condition":
            e["attribute_dependencies"] = mp(*[(sym(a), cond(a)[1]) for a in attrs])
        exp[(st, None)] = e
    for f, (st, ty, kf, fld) in PER_KEY.items():
        for l in (L1, L2):
            ln = next(iter(l[1]))
            who = [a for a in attrs if l in attrs[a]]
            if not who:
                continue
            kv = l if kf == "language" else S("!target" + ln)
            e = {kf: kv, fld: mp(*[(sym(a), S(f"!*{a}.{f}" + ln)) for a in who])}
            if f == "labels":
                e["category_labels"] = mp()
                e["attribute_categories"] = vec()
            exp[(st, kv)] = e
    exp[(FRAMING[0], "f")] = {"metadata": mp((K("frame_id"), S("!fid")), (K("frame_label"), S("!*flabel")), (K("frame_version"), S("!*fver"))),
                              "attribute_framing": mp(*[(sym(a), framing(r, a)) for a in attrs])}
    return exp


def okey(r, ov):
    n = ov[1].split("::")[-1] if ov is not None and ov[0] == "a" else None
    for f, (st, ty, kf, fld) in PER_KEY.items():
        if st == n:
            return (n, field(r.F, ov, kf))
    if n == FRAMING[0]:
        return (n, "f")
    if n == META[0]:
        return (n, field(r.F, ov, "language"))
    return (n, None)


def compare(r, pre, bundle, exp, w, okey=okey):
    F = r.F
    ovs = field(F, bundle, "overlays")
    if ovs is None or ovs[0] != "t":
        r.ob(pre + ":overlays", False, w, f"the set of overlays depends on a condition the input does not determine: {pv(F, ovs)[:500]}")
        return
    got = {}
    for o in ovs[1]:
        k = okey(r, o)
        r.ob(pre + f":unique:{k[0]}", k not in got, w, f"two overlays of the same kind for the same language / target: {k}")
        got[k] = o
    for k, e in exp.items():
        nm = f"{pre}:{k[0]}:{pv(F, k[1]) if isinstance(k[1], tuple) else k[1]}"
        o = got.get(k)
        if o is None:
            r.ob(nm, False, w, f"no {k[0]} for {pv(F, k[1]) if isinstance(k[1], tuple) else 'any attribute'} although attributes carry its metadata; generated: {sorted(x[0] for x in got)}")
            continue
        for f, v in e.items():
            r.eq(nm + ":" + f, field(F, o, f), v, w, f"{k[0]}.{f}")
    for k in got:
        if k not in exp:
            r.ob(f"{pre}:extra:{k[0]}", False, w, f"a {k[0]} is generated that no attribute metadata asks for: {pv(F, got[k])[:300]}")


def gen(r, bx, hash_rev=False):
    f = r.method("oca::OCABox", "generate_bundle")
    outs = r.run(f, [Ref(bx, "self")], hash_rev=hash_rev)
    w = r.where(f)
    vals = [v for _, v in outs]
    if not vals:
        return None, w
    v = vals[0]
    for x in vals[1:]:
        v = r.ip.join(v, x)
    return v, w


def generate(r):
    F = r.F
    attrs = {"a": (L1, L2), "b": (L1,), "c": (L2,)}
    bx = ap.box(r, [full(r, a, l) for a, l in attrs.items()] + [ap.attr(r, sym("d"), attribute_type=some(S("!d.type")))],
                meta=some(mp((L1, mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))), (L2, mp((S("!k1"), S("!m3")))))), classification=some(S("!cls")))
    b, w = gen(r, bx)
    exp = expected(r, attrs)
    exp[("MetaOverlay", L1)] = {"attr_pairs": mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))}
    exp[("MetaOverlay", L2)] = {"attr_pairs": mp((S("!k1"), S("!m3")))}
    if b is None:
        r.ob("generate:full", False, w, "no path returns a bundle")
        return
    compare(r, "generate:full", b, exp, w)
    cb = field(F, b, "capture_base")
    r.eq("generate:capture-base:attributes", field(F, cb, "attributes"), mp(*[(sym(a), S(f"!{a}.type")) for a in "abcd"]), w, "capture base attributes")
    r.eq("generate:capture-base:classification", field(F, cb, "classification"), S("!cls"), w, "capture base classification")
    r.eq("generate:capture-base:flagged", field(F, cb, "flagged_attributes"), vec(), w, "flagged attributes when none is flagged")
    # each kind of metadata alone, on the middle one of three attributes
    kinds = list(PER_ATTR) + list(PER_KEY) + ["framings"]
    for k in kinds:
        src = full(r, "b", (L1,))
        kw = {k: field(F, src, k)}
        if k == "condition":
            kw["dependencies"] = field(F, src, "dependencies")
        bx = ap.box(r, [ap.attr(r, sym("a")), ap.attr(r, sym("b"), **kw), ap.attr(r, sym("c"))])
        b, w = gen(r, bx)
        allx = expected(r, {"b": (L1,)})
        st = PER_ATTR[k][0] if k in PER_ATTR else PER_KEY[k][0] if k in PER_KEY else FRAMING[0]
        compare(r, "generate:only:" + k, b, {x: e for x, e in allx.items() if x[0] == st}, w)
    # flagged attributes and an empty box
    bx = ap.box(r, [ap.attr(r, sym("a"), attribute_type=some(S("!ta")), is_flagged=TRUE), ap.attr(r, sym("b"), attribute_type=some(S("!tb"))),
                    ap.attr(r, sym("c"), attribute_type=some(S("!tc")), is_flagged=TRUE)])
    b, w = gen(r, bx)
    cb = field(F, b, "capture_base")
    r.eq("generate:flagged", field(F, cb, "flagged_attributes"), vec(sym("a"), sym("c")), w, "flagged attributes")
    compare(r, "generate:bare", b, {}, w)


# ------------------------------------------------------------------ loading
def bundle_value(r, attrs, metas=True):
    """the bundle the builder makes for these attributes"""
    F = r.F
    ovs = []
    said = some(S("!cbsaid"))
    tys = {x[0]: x[1] for x in list(PER_ATTR.values()) + list(PER_KEY.values()) + [FRAMING, META]}
    exp = expected(r, attrs)
    if metas:
        exp[("MetaOverlay", L1)] = {"language": L1, "attr_pairs": mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))}
        exp[("MetaOverlay", L2)] = {"language": L2, "attr_pairs": mp((S("!k1"), S("!m3")))}
    for i, ((st, k), e) in enumerate(exp.items()):
        kw = dict(e)
        kw.update(said=some(S(f"!ovsaid{i}")), capture_base=said, overlay_type=variant(F, OA + "OverlayType", tys[st], K("1.1")))
        if st == "LabelOverlay":
            kw["_category_attributes"] = mp()
        if st == FRAMING[0]:
            kw["attribute_framing"] = mp(*[(sym(a), framing(r, a, mp())) for a in attrs])
        ovs.append(struct(F, OV + OVPATH[st] + "::" + st, "", **kw))
    cb = struct(F, OB + "state::oca::capture_base::CaptureBase", "", said=said, schema_type=K("spec/capture_base/1.1"), attributes=mp(*[(sym(a), S(f"!{a}.type")) for a in attrs]),
                classification=S("!cls"), flagged_attributes=vec(*[sym(a) for a in list(attrs)[1:2]]))
    return struct(F, OB + "state::oca::OCABundle", "", said=some(S("!bsaid")), capture_base=cb, overlays=vec(*ovs))


def load(r):
    """bundle -> box keeps every attribute, type, flag, overlay value and the metadata"""
    F = r.F
    attrs = {"a": (L1, L2), "b": (L1,), "c": (L2,)}
    f = r.method("oca::OCABox", "from", trait="From", targ="OCABundle")
    w = r.where(f)
    outs = r.run(f, [bundle_value(r, attrs)])
    if not outs:
        r.ob("load:returns", False, w, "no path returns")
        return
    v = outs[0][1]
    for _, x in outs[1:]:
        v = r.ip.join(v, x)
    at = field(F, v, "attributes")
    if at is None or at[0] != "m":
        r.ob("load:attributes", False, w, f"the set of loaded attributes is not determined by the bundle: {pv(F, at)[:400]}")
        return
    r.eq("load:attributes", vec(*sorted([k for k, _ in at[1]], key=str)), vec(*sorted([sym(a) for a in attrs], key=str)), w, "loaded attributes")
    for a, l in attrs.items():
        g = mget(at, sym(a))
        if g is None:
            continue
        want = full(r, a, l)
        for n in [x["n"] for x in F.adt(ATTR)["v"][0]["f"]]:
            e = field(F, want, n)
            x = field(F, g, n)
            if n == "is_flagged":
                e = TRUE if a == "b" else FALSE
            r.eq(f"load:{a}:{n}", x, e, w, f"{n} of loaded attribute {a}")
    r.eq("load:meta", field(F, v, "meta"), some(mp((L1, mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))), (L2, mp((S("!k1"), S("!m3")))))), w, "metadata")
    r.eq("load:classification", field(F, v, "classification"), some(S("!cls")), w, "classification")
