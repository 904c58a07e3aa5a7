"""Effect of one AST command on the box being built (apply_command), attribute by attribute."""
from base import *

LANG = K("en")
ISO = K("lang:eng")


def A_(r):
    return r.F.adt(ATTR)


def attr(r, name, **kw):
    d = {f["n"]: NONE for f in A_(r)["v"][0]["f"]}
    d.update(name=name, attribute_type=some(S("!type")), is_flagged=FALSE)
    d.update(kw)
    return struct(r.F, ATTR, "", **d)


def box(r, attrs, **kw):
    d = dict(attributes=mp(*[(field(r.F, a, "name"), a) for a in attrs]), meta=NONE, mappings=NONE, classification=NONE)
    d.update(kw)
    return struct(r.F, OB + "state::oca::OCABox", "", **d)


def command(r, kind, obj):
    return struct(r.F, OA + "Command", "cmd", kind=variant(r.F, OA + "CommandType", kind), object_kind=obj)


def content(r, attributes=NONE, properties=NONE):
    return struct(r.F, OA + "Content", "", attributes=attributes, properties=properties)


def overlay(r, ov, c, ver=S("!ver")):
    return variant(r.F, OA + "ObjectKind", "Overlay", variant(r.F, OA + "OverlayType", ov, ver), c)


def capture(r, attributes=NONE, properties=NONE, flagged=NONE):
    c = struct(r.F, OA + "CaptureContent", "", attributes=attributes, properties=properties, flagged_attributes=flagged)
    return variant(r.F, OA + "ObjectKind", "CaptureBase", c)


def val(r, v):
    return variant(r.F, OA + "NestedValue", "Value", v)


def obj(r, *kv):
    return variant(r.F, OA + "NestedValue", "Object", mp(*kv))


def arr(r, *xs):
    return variant(r.F, OA + "NestedValue", "Array", vec(*xs))


def refsaid(r, v):
    return variant(r.F, OA + "NestedValue", "Reference", variant(r.F, OA + "RefValue", "Said", v))


def apply_fn(r):
    return r.fn("apply_command", crate="oca_bundle_semantics")


def okstates(outs):
    return [(st, v) for st, v in outs if v is not None and v[0] == "a" and any(i == 0 for i, _ in v[2])]


def one_ok(r, key, outs, where, what):
    """the call ends in exactly one way: Ok with one known value"""
    vals = [v for st, v in outs]
    good = [only(v, 0) for v in vals]
    if not vals or any(g is None for g in good):
        r.ob(key, False, where, f"{what}: expected success on every path, found " + "; ".join(pv(r.F, v) for v in vals)[:600] if vals else f"{what}: no path reaches the end")
        return None
    v = good[0]
    for g in good[1:]:
        if not same_val(g, v):
            r.ob(key, False, where, f"{what}: result depends on a condition that should not matter: {pv(r.F, v)[:400]} / {pv(r.F, g)[:400]}")
            return None
    return v


SPEC = {
    # overlay type: (value given per attribute, property list, field, expected field content); T(v) = per-attribute symbol
    "Label": ("value", "lang", "labels"),
    "Information": ("value", "lang", "informations"),
    "CharacterEncoding": ("enc", None, "encoding"),
    "Conformance": ("value", None, "conformance"),
    "Format": ("value", None, "format"),
    "Unit": ("value", None, "unit"),
    "Cardinality": ("value", None, "cardinality"),
    "EntryCode": ("codes", None, "entry_codes"),
    "Entry": ("entries", "lang", "entries"),
    "Conditional": ("cond", None, "condition"),
    "Link": ("value", "target", "links"),
    "AttributeFraming": ("framing", "id", "framings"),
}


def ENC(r, n):
    return variant(r.F, OB + "state::encoding::Encoding", n)


def cases(r, ov):
    """-> list of (title, [given value per attribute], properties, field, [expected per attribute])"""
    kind, prop, fld = SPEC[ov]
    F = r.F
    n = ["a", "b", "c"]
    s = lambda x, k="": S("!*v" + x + k)
    props = NONE
    wrap = lambda v: some(v)
    if prop == "lang":
        props = some(mp((K("lang"), val(r, LANG))))
        wrap = lambda v: some(mp((ISO, v)))
    elif prop == "target":
        props = some(mp((K("target"), refsaid(r, S("!target")))))
        wrap = lambda v: some(mp((S("!target"), v)))
    EC = OB + "state::entry_codes::EntryCodes"
    EE = OB + "state::entries::EntriesElement"
    if kind == "value":
        return [("", [val(r, s(x)) for x in n], props, fld, [wrap(s(x)) for x in n])]
    if kind == "enc":
        k = ["base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"]
        e = ["Base64", "Utf8", "Iso8859_1", "Utf16", "Utf16Be", "Utf16Le"]
        return [(str(j), [val(r, K(x)) for x in k[j:j + 3]], props, fld, [some(ENC(r, x)) for x in e[j:j + 3]]) for j in (0, 3)]
    if kind == "codes":
        out = [("said", [val(r, s(x)) for x in n], props, fld, [some(variant(F, EC, "Sai", s(x))) for x in n])]
        out.append(("list", [arr(r, *[val(r, s(x, i)) for i in "123"]) for x in n], props, fld,
                    [some(variant(F, EC, "Array", vec(*[s(x, i) for i in "123"]))) for x in n]))
        out.append(("groups", [obj(r, *[(s(x, "g" + g), arr(r, *[val(r, s(x, g + i)) for i in "12"])) for g in "12"]) for x in n], props, fld,
                    [some(variant(F, EC, "Object", mp(*[(s(x, "g" + g), vec(*[s(x, g + i) for i in "12"])) for g in "12"]))) for x in n]))
        return out
    if kind == "entries":
        out = [("said", [val(r, s(x)) for x in n], props, fld, [wrap(variant(F, EE, "Sai", s(x))) for x in n])]
        out.append(("map", [obj(r, *[(s(x, "k" + i), val(r, s(x, "v" + i))) for i in "123"]) for x in n], props, fld,
                    [wrap(variant(F, EE, "Object", mp(*[(s(x, "k" + i), s(x, "v" + i)) for i in "123"]))) for x in n]))
        return out
    if kind == "framing":
        FS = OB + "state::oca::overlay::attribute_framing::FramingScope"
        props = some(mp((K("id"), val(r, S("!fid"))), (K("label"), val(r, S("!flabel"))), (K("location"), val(r, S("!floc"))), (K("version"), val(r, S("!fver")))))
        meta = mp((K("frame_label"), S("!flabel")), (K("frame_location"), S("!floc")), (K("frame_version"), S("!fver")))
        g = [obj(r, *[(s(x, "t" + i), obj(r, (K("predicate_id"), val(r, s(x, "p" + i))), (K("framing_justification"), val(r, s(x, "j" + i))))) for i in "12"]) for x in n]
        w = [some(mp((S("!fid"), mp(*[(s(x, "t" + i), struct(F, FS, "", predicate_id=s(x, "p" + i), framing_justification=s(x, "j" + i), frame_meta=meta)) for i in "12"])))) for x in n]
        return [("", g, props, fld, w)]
    return []


def prior(r, fld, x, want):
    """an attribute that already has metadata of this kind: (old value of the field, expected value after the command)"""
    F = r.F
    m = only(want, 1)
    if fld in ("labels", "informations", "entries"):
        old = S("!*old" + x)
        if fld == "entries":
            old = variant(F, OB + "state::entries::EntriesElement", "Sai", old)
        keep = S("!*keep" + x)
        if fld == "entries":
            keep = variant(F, OB + "state::entries::EntriesElement", "Object", mp((S("!*kk" + x), keep)))
        new = m[1][0][1]
        return some(mp((K("lang:fra"), keep), (ISO, old))), some(mp((K("lang:fra"), keep), (ISO, new)))
    if fld == "links":
        return some(mp((S("!target"), S("!*old" + x)), (S("!target2"), S("!*keep" + x)))), some(mp((S("!target"), m[1][0][1]), (S("!target2"), S("!*keep" + x))))
    if fld == "framings":
        FS = OB + "state::oca::overlay::attribute_framing::FramingScope"
        sc = lambda n: struct(F, FS, "", predicate_id=S(f"!{n}p{x}"), framing_justification=S(f"!{n}j{x}"), frame_meta=mp())
        new = dict(m[1][0][1][1])
        k1 = list(new)[0]
        old = some(mp((S("!fid2"), mp((S("!*kt" + x), sc("keep")))), (S("!fid"), mp((k1, sc("old")), (S("!*ot" + x), sc("other"))))))
        res_ = some(mp((S("!fid2"), mp((S("!*kt" + x), sc("keep")))), (S("!fid"), mp(*(list(new.items()) + [(S("!*ot" + x), sc("other"))])))))
        return old, res_
    if fld == "entry_codes":
        return some(variant(F, OB + "state::entry_codes::EntryCodes", "Array", vec(S("!*old" + x), S("!old2" + x)))), want
    if fld == "encoding":
        return some(ENC(r, "Utf16")), want
    return some(S("!*old" + x)), want


def effects(r):
    """ADD <overlay>: the named attributes get exactly the given value, nothing else changes"""
    f = apply_fn(r)
    w = r.where(f)
    n = ["a", "b", "c"]
    for ov in SPEC:
        for title, given, props, fld, want in cases(r, ov):
            for before in ("", "over"):
                key = f"add-overlay:{ov}" + (":" + title if title else "") + (":" + before if before else "")
                kept = {k: v for k, v in dict(unit=some(S("!*u")), format=some(S("!f")), conformance=some(S("!cf")), cardinality=some(S("!ca")),
                                              labels=some(mp((ISO, S("!l")), (K("lang:fra"), S("!l2")))), links=some(mp((S("!target"), S("!li")))),
                                              informations=some(mp((ISO, S("!i")))), is_flagged=TRUE).items() if k != fld}
                pr = [prior(r, fld, x, e) if before else (NONE, e) for x, e in zip(n, want)]
                # a: only this kind of metadata, b: all kinds
                was = lambda i, x: {**(kept if i == 1 and before else {}), fld: pr[i][0]}
                now = lambda i, x: {**(kept if i == 1 and before else {}), fld: pr[i][1]}
                old = box(r, [attr(r, sym(x), **was(i, x)) for i, x in enumerate(n)] + [attr(r, sym("d"), **kept)], classification=some(S("!*cls")), meta=some(S("!meta")))
                c = content(r, some(mp(*[(sym(x), g) for x, g in zip(n, given)])), props)
                outs = r.run(f, [some(old), command(r, "Add", overlay(r, ov, c))])
                b = one_ok(r, key, outs, w, f"ADD {ov}")
                if b is None:
                    continue
                want_box = box(r, [attr(r, sym(x), **now(i, x)) for i, x in enumerate(n)] + [attr(r, sym("d"), **kept)], classification=some(S("!*cls")), meta=some(S("!meta")))
                r.eq(key, b, want_box, w, f"attributes after ADD {ov} {title}")
                if r.ip.panics:
                    r.ob(key + ":total", False, w, f"ADD {ov} on well-formed input can panic: {sorted(str(k[1]) for k in r.ip.panics)}")
                else:
                    r.ob(key + ":total", True, w)


def conditions(r):
    """ADD CONDITION: references are numbered in order of first appearance, the dependency list names them in that order"""
    f = apply_fn(r)
    w = r.where(f)
    T = lambda *p: text(*p)
    cs = [("two", T("${", sym("c"), "} > ", S("!n"), " and ${", sym("d"), "} or ${", sym("c"), "}"), T("${0} > ", S("!n"), " and ${1} or ${0}"), ["c", "d"]),
          ("one", T("${", sym("d"), "} == 1"), T("${0} == 1"), ["d"]),
          ("none", S("!n"), S("!n"), []),
          ("three", T("${", sym("c"), "}${", sym("d"), "}${", sym("d"), "}${", sym("e"), "}${", sym("c"), "}"), T("${0}${1}${1}${2}${0}"), ["c", "d", "e"])]
    for i, (n1, t1, w1, d1) in enumerate(cs):
        n2, t2, w2, d2 = cs[i - 1]
        for before in (False, True):
            key = f"add-overlay:Conditional:{n1}" + (":over" if before else "")
            prev = dict(condition=some(S("!oldc")), dependencies=some(vec(S("!oldd")))) if before else {}
            old = box(r, [attr(r, sym("a"), **prev), attr(r, sym("b"), unit=some(S("!*u"))), attr(r, sym("c"), condition=some(S("!kc")), dependencies=some(vec(sym("a"))))])
            c = content(r, some(mp((sym("a"), val(r, t1)), (sym("b"), val(r, t2)))))
            outs = r.run(f, [some(old), command(r, "Add", overlay(r, "Conditional", c))])
            b = one_ok(r, key, outs, w, "ADD CONDITION")
            if b is not None:
                D = lambda ds: some(vec(*[sym(x) for x in ds]))
                r.eq(key, b, box(r, [attr(r, sym("a"), condition=some(w1), dependencies=D(d1)), attr(r, sym("b"), unit=some(S("!*u")), condition=some(w2), dependencies=D(d2)),
                                     attr(r, sym("c"), condition=some(S("!kc")), dependencies=some(vec(sym("a"))))]), w, "attributes after ADD CONDITION")
            r.ob(key + ":total", not r.ip.panics, w, f"ADD CONDITION can panic: {sorted(str(k[1]) for k in r.ip.panics)}")


def meta(r):
    f = apply_fn(r)
    w = r.where(f)
    for title, before, after in (
            ("new", NONE, mp((ISO, mp((S("!p"), S("!*vp")), (S("!q"), S("!*vq")))))),
            ("other-language", some(mp((K("lang:fra"), mp((S("!p"), S("!*old")))))),
             mp((K("lang:fra"), mp((S("!p"), S("!*old")))), (ISO, mp((S("!p"), S("!*vp")), (S("!q"), S("!*vq")))))),
            ("replace", some(mp((ISO, mp((S("!p"), S("!*old")), (S("!r"), S("!*keep")))))),
             mp((ISO, mp((S("!p"), S("!*vp")), (S("!r"), S("!*keep")), (S("!q"), S("!*vq"))))))):
        key = "add-overlay:Meta:" + title
        old = box(r, [attr(r, sym("a"))], meta=before, classification=some(S("!*cls")))
        c = content(r, NONE, some(mp((K("lang"), val(r, LANG)), (S("!p"), val(r, S("!*vp"))), (S("!q"), val(r, S("!*vq"))))))
        outs = r.run(f, [some(old), command(r, "Add", overlay(r, "Meta", c))])
        b = one_ok(r, key, outs, w, "ADD META")
        if b is not None:
            r.eq(key, b, box(r, [attr(r, sym("a"))], meta=some(after), classification=some(S("!*cls"))), w, "box after ADD META")


def capture_base(r):
    f = apply_fn(r)
    w = r.where(f)
    n = ["a", "b", "c"]
    at = some(mp(*[(sym(x), S("!t" + x)) for x in n]))
    pr = some(mp((K("classification"), val(r, S("!*cls"))), (K("other"), val(r, S("!o")))))
    outs = r.run(f, [NONE, command(r, "Add", capture(r, at, pr))])
    b = one_ok(r, "add-capture-base:new", outs, w, "ADD ATTRIBUTE")
    new = [attr(r, sym(x), attribute_type=some(S("!t" + x))) for x in n]
    if b is not None:
        r.eq("add-capture-base:new", b, box(r, new, classification=some(S("!*cls"))), w, "box after ADD ATTRIBUTE / CLASSIFICATION")
    old = box(r, [attr(r, sym("d"), unit=some(S("!*u")))], classification=some(S("!*old")), meta=some(S("!meta")))
    outs = r.run(f, [some(old), command(r, "Add", capture(r, at, pr))])
    b = one_ok(r, "add-capture-base:more", outs, w, "ADD ATTRIBUTE")
    if b is not None:
        r.eq("add-capture-base:more", b, box(r, [attr(r, sym("d"), unit=some(S("!*u")))] + new, classification=some(S("!*cls")), meta=some(S("!meta"))), w,
             "box after ADD ATTRIBUTE on an existing box")
    # flags: on attributes of the same command and on attributes defined before
    fl = some(vec(sym("b"), sym("d")))
    outs = r.run(f, [some(box(r, [attr(r, sym("d"), unit=some(S("!*u"))), attr(r, sym("e"))])), command(r, "Add", capture(r, at, NONE, fl))])
    b = one_ok(r, "add-flags", outs, w, "ADD ATTRIBUTE with FLAGGED_ATTRIBUTES")
    if b is not None:
        r.eq("add-flags", b, box(r, [attr(r, sym("d"), unit=some(S("!*u")), is_flagged=TRUE), attr(r, sym("e")), new[0],
                                     attr(r, sym("b"), attribute_type=some(S("!tb")), is_flagged=TRUE), new[2]]), w, "box after FLAGGED_ATTRIBUTES b d")
    # removing
    old = [attr(r, sym(x), unit=some(S("!*u" + x))) for x in n + ["d"]]
    rm = some(mp((sym("a"), S("!x")), (sym("c"), S("!x"))))
    outs = r.run(f, [some(box(r, old, classification=some(S("!*cls")))), command(r, "Remove", capture(r, rm))])
    b = one_ok(r, "remove-attributes", outs, w, "REMOVE ATTRIBUTE")
    if b is not None:
        r.eq("remove-attributes", b, box(r, [old[1], old[3]], classification=some(S("!*cls"))), w, "box after REMOVE ATTRIBUTE a c")
    outs = r.run(f, [some(box(r, old, classification=some(S("!*cls")))), command(r, "Remove", capture(r, NONE, some(mp((K("classification"), val(r, S("!x")))))))])
    b = one_ok(r, "remove-classification", outs, w, "REMOVE CLASSIFICATION")
    if b is not None:
        r.eq("remove-classification", b, box(r, old), w, "box after REMOVE CLASSIFICATION")


def undefined(r):
    """an overlay that names an attribute the bundle does not have is an error, whatever its position"""
    f = apply_fn(r)
    w = r.where(f)
    for ov in list(SPEC):
        for title, given, props, fld, want in cases(r, ov):
            for pos in (0, 1, 2):
                names = ["a", "b", "c"]
                have = [attr(r, sym(x)) for i, x in enumerate(names) if i != pos]
                key = f"undefined:{ov}{':' + title if title else ''}:{pos}"
                for cname, base in (("some", some(box(r, have))), ("none", NONE)):
                    if cname == "none" and pos:
                        continue
                    c = content(r, some(mp(*[(sym(x), g) for x, g in zip(names, given)])), props)
                    outs = r.run(f, [base, command(r, "Add", overlay(r, ov, c))])
                    bad = [v for _, v in outs if only(v, 1) is None]
                    msgs = [only(v, 1) for _, v in outs if only(v, 1) is not None]
                    named = all(sym(names[pos])[1] <= r.ip.labels(m) for m in msgs)
                    r.ob(key + ":" + cname, outs and not bad, w,
                         f"ADD {ov} naming an undefined attribute must be an error on every path; " +
                         ("no path returns" if not outs else "a path returns " + pv(r.F, bad[0])[:300] if bad else ""))
                    if outs and not bad:
                        r.ob(key + ":" + cname + ":named", named, w, f"the error must name the undefined attribute: {[pv(r.F, m) for m in msgs][:2]}")


UNKNOWN = ("zz", "", "EN", "Fr", "eng", "e", "english", "en-US", "e n", "en\u00e9")      # no two-letter language codes


def rejected(r):
    """malformed commands are errors, not panics and not silent successes"""
    f = apply_fn(r)
    w = r.where(f)
    have = box(r, [attr(r, sym("a"))])
    v = lambda x: some(mp((sym("a"), x)))
    fr = cases(r, "AttributeFraming")[0][1][0]
    cs = [
        ("from-command", command(r, "From", S("!obj"))),
        ("unknown-encoding", command(r, "Add", overlay(r, "CharacterEncoding", content(r, v(val(r, K("klingon"))))))),
        ("link-without-target", command(r, "Add", overlay(r, "Link", content(r, v(val(r, S("!v"))), NONE)))),
        ("framing-without-id", command(r, "Add", overlay(r, "AttributeFraming", content(r, v(fr), NONE)))),
    ]
    fid = some(mp((K("id"), val(r, S("!fid")))))
    whole = obj(r, (K("predicate_id"), val(r, S("!p"))), (K("framing_justification"), val(r, S("!j"))))
    for n, t in (("no-justification", obj(r, (K("predicate_id"), val(r, S("!p"))))), ("no-predicate", obj(r, (K("framing_justification"), val(r, S("!j"))))), ("nothing", obj(r)), ("text", val(r, S("!t"))),
                 ("array", arr(r, val(r, S("!t")))), ("nested", obj(r, (K("predicate_id"), whole), (K("framing_justification"), val(r, S("!j")))))):
        cs.append((f"framing:{n}", command(r, "Add", overlay(r, "AttributeFraming", content(r, v(obj(r, (S("!t1"), t))), fid)))))
        cs.append((f"framing:{n}:second", command(r, "Add", overlay(r, "AttributeFraming", content(r, v(obj(r, (S("!t0"), whole), (S("!t1"), t))), fid)))))
    for ov in ("Label", "Information", "Entry"):
        for l in UNKNOWN:
            cs.append((f"unknown-language:{ov}:{l}", command(r, "Add", overlay(r, ov, content(r, v(val(r, S("!v"))), some(mp((K("lang"), val(r, K(l))))))))))
        cs.append((f"no-language:{ov}", command(r, "Add", overlay(r, ov, content(r, v(val(r, S("!v"))), NONE)))))
    for l in UNKNOWN:
        cs.append((f"unknown-language:Meta:{l}", command(r, "Add", overlay(r, "Meta", content(r, NONE, some(mp((K("lang"), val(r, K(l))), (S("!p"), val(r, S("!*vp"))))))))))
    cs.append(("undefined-flagged", command(r, "Add", capture(r, NONE, NONE, some(vec(sym("a"), sym("z")))))))
    # commands nothing is defined for
    bundle = variant(r.F, OA + "ObjectKind", "OCABundle", S("!bundle"))
    c1 = content(r, v(val(r, S("!v"))))
    cs += [("add-bundle", command(r, "Add", bundle)), ("remove-bundle", command(r, "Remove", bundle)), ("remove-overlay", command(r, "Remove", overlay(r, "Unit", c1))),
           ("modify-capture-base", command(r, "Modify", capture(r, v(S("!t"))))), ("modify-bundle", command(r, "Modify", bundle)),
           ("modify-overlay", command(r, "Modify", overlay(r, "Unit", c1)))]
    for name, cmd in cs:
        outs = r.run(f, [some(have), cmd])
        bad = [x for _, x in outs if only(x, 1) is None]
        r.ob("reject:" + name, outs and not bad and not r.ip.panics, w,
             f"must be reported as an error: " + (f"panics ({sorted(str(k[1]) for k in r.ip.panics)})" if r.ip.panics else "" if not bad else "returns " + pv(r.F, bad[0])[:300]))
