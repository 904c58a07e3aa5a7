"""Bundle -> commands -> bundle, and the building of a bundle out of a list of commands."""
from base import *
import apply as ap
import bundle as bd

EC = OB + "state::entry_codes::EntryCodes"
EE = OB + "state::entries::EntriesElement"
ENG, FRA = K("lang:eng"), K("lang:fra")


def attribute(r, a, langs=(ENG,), codes="Array", entry="Object", enc="Utf8", targets=("1",), fids=("1",)):
    """an attribute with every kind of metadata the language can express"""
    F = r.F
    T = lambda n: S(f"!*{a}.{n}")
    ln = lambda l: l[1][5:]
    cv = {"Sai": lambda: variant(F, EC, "Sai", S(f"!SAID{a}.codes")), "Array": lambda: variant(F, EC, "Array", vec(T("code1"), T("code2"), T("code3"))),
          "Object": lambda: variant(F, EC, "Object", mp((T("group1"), vec(T("code1"), T("code2"))), (T("group2"), vec(T("code3")))))}[codes]()
    ev = lambda l: {"Sai": lambda: variant(F, EE, "Sai", S(f"!SAID{a}.entries{ln(l)}")),
                    "Object": lambda: variant(F, EE, "Object", mp((T("code1"), T("e1" + ln(l))), (T("code2"), T("e2" + ln(l)))))}[entry]()
    fr = lambda i: (S("!fid" + i), mp(*[(T(f"term{t}{i}"), struct(F, bd.FS, "", predicate_id=T(f"p{t}{i}"), framing_justification=T(f"j{t}{i}"),
                                                                 frame_meta=mp((K("frame_label"), S("!flabel" + i)), (K("frame_version"), S("!fver" + i))))) for t in "12"]))
    ct, cd = bd.cond(a)
    return ap.attr(r, sym(a), attribute_type=some(T("type")), condition=some(ct), dependencies=some(cd), encoding=some(ap.ENC(r, enc)),
                   format=some(T("format")), conformance=some(T("conformance")), cardinality=some(T("cardinality")), unit=some(T("unit")), entry_codes=some(cv),
                   labels=some(mp(*[(l, T("label" + ln(l))) for l in langs])), informations=some(mp(*[(l, T("info" + ln(l))) for l in langs])),
                   entries=some(mp(*[(l, ev(l)) for l in langs])), links=some(mp(*[(S("!SAIDtarget" + t), T("link" + t)) for t in targets])),
                   framings=some(mp(*[fr(i) for i in fids])))


def commands_of(r, bundle_):
    f = r.method("oca::OCABundle", "to_ast")
    outs = r.run(f, [Ref(bundle_, "self")])
    w = r.where(f)
    v = None
    for _, x in outs:
        v = r.ip.join(v, x)
    cs = field(r.F, v, "commands") if v is not None else None
    return cs, w, sorted(str(k[1]) for k in r.ip.panics)


def replay(r, key, cs, w):
    """apply commands one after another -> final box"""
    f = ap.apply_fn(r)
    b = NONE
    for i, c in enumerate(cs[1]):
        outs = r.run(f, [b, c])
        v = ap.one_ok(r, key + ":applies", outs, w, f"command {i} written for the bundle ({pv(r.F, field(r.F, c, 'object_kind'))[:80]}) must apply")
        if v is None:
            return None
        b = some(v)
    r.ob(key + ":applies", True, w)
    return only(b, 1)


def strip_empty(r, bx):
    return bx


def roundtrip(r):
    F = r.F
    A = lambda a, **kw: attribute(r, a, **kw)
    bare = lambda a, **kw: ap.attr(r, sym(a), attribute_type=some(S(f"!{a}.type")), **kw)
    meta = some(mp((ENG, mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))), (FRA, mp((S("!k1"), S("!m3"))))))
    cases = [
        ("all", [A("a", langs=(ENG, FRA), targets=("1", "2"), fids=("1", "2")), A("b", codes="Object", entry="Sai", enc="Base64"), bare("c"),
                 A("d", langs=(FRA,), codes="Sai", enc="Utf16", targets=("2",), fids=("2",))], meta, some(S("!cls"))),
        ("flags", [bare("a", is_flagged=TRUE), bare("b"), bare("c", is_flagged=TRUE, unit=some(S("!c.unit")))], NONE, NONE),
        ("bare", [bare("a"), bare("b")], NONE, NONE),
    ]
    for f in ("labels", "informations", "entries", "links", "framings", "encoding", "format", "conformance", "cardinality", "unit", "entry_codes", "condition"):
        kw = {f: field(F, A("b"), f)}
        if f == "condition":
            kw["dependencies"] = field(F, A("b"), "dependencies")
        cases.append(("only:" + f, [bare("a"), bare("b", **kw), bare("c")], NONE, NONE))
    for name, attrs, mt, cls in cases:
        key = "rebuild:" + name
        src = ap.box(r, attrs, meta=mt, classification=cls)
        b, w = bd.gen(r, src)
        if b is None:
            r.ob(key, False, w, "no bundle is generated")
            continue
        cs, w, pn = commands_of(r, b)
        r.ob(key + ":total", not pn, w, f"to_ast can panic on a bundle the builder makes: {pn}")
        if cs is None or cs[0] != "t":
            r.ob(key, False, w, f"the commands of a bundle are not determined by it: {pv(F, cs)[:300]}")
            continue
        got = replay(r, key, cs, w)
        if got is None:
            continue
        gm = field(F, got, "meta")
        if cls == NONE:
            r.ob(key + ":classification", field(F, got, "classification") in (NONE, some(K(""))), w, f"classification appears from nowhere: {pv(F, field(F, got, 'classification'))}")
        else:
            r.eq(key + ":classification", field(F, got, "classification"), cls, w, "classification")
        r.eq(key + ":meta", gm, mt, w, "metadata")
        r.eq(key + ":attributes", field(F, got, "attributes"), field(F, src, "attributes"), w, "attributes rebuilt from the commands of their bundle")
