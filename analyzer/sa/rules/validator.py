"""What the bundle validator reports."""
from base import *
import apply as ap
import bundle as bd
import seal as sl

VAL = OB + "state::validator::Validator"
ENG, POL, FRA = K("lang:eng"), K("lang:pol"), K("lang:fra")
LN = {"eng": ENG, "pol": POL, "fra": FRA}


def setf(F, v, **kw):
    i, fs = v[2][0]
    fs = list(fs)
    names = [f["n"] for f in F.adts[v[1]]["v"][i]["f"]]
    for n, x in kw.items():
        if n not in names:
            raise Missing(f"{v[1]} has no field {n}")
        fs[names.index(n)] = x
    return ("a", v[1], ((i, tuple(fs)),))


def words(v):
    """the constants and symbols a text is made of"""
    if v is None:
        return None
    if v[0] == "a" and len(v[2]) == 1:
        out = ""
        for x in v[2][0][1]:
            w = words(x)
            out += " " + (w if w is not None else "?")
        return out
    if v[0] == "k":
        return " " + str(v[1])
    if v[0] == "s":
        return " " + " ".join(sorted(x.lstrip("!*=~") for x in v[1]))
    if v[0] == "cat":
        return "".join((words(x) or " ?").replace(" ", "", 1) for x in v[1])
    return None


def validate(r, key, b, langs, expect, calls=1):
    """calls: in how many calls the languages are stated; expect: None for `valid`, otherwise one tuple of words per error that has to be reported, no error beyond them"""
    F = r.F
    f = r.method("state::validator::Validator", "validate")
    v = r.method("state::validator::Validator", "new")
    outs = r.run(v, [])
    nv = only(outs[0][1], 0) if False else outs[0][1] if len(outs) == 1 else None
    if nv is None:
        raise Missing("a single way to make a Validator")
    for i in range(calls if langs else 0):
        outs = r.run(r.method("state::validator::Validator", "enforce_translations"), [nv, vec(*langs[i::calls])])
        if len(outs) != 1:
            raise Missing("a single way to enforce languages")
        nv = outs[0][1]
    outs = r.run(f, [nv, Ref(b, "bundle")])
    w = r.where(f)
    if not r.ob(f"{key}:total", not r.ip.panics and outs, w, f"validation can panic: {sorted(map(str, r.ip.panics))[:3]}"):
        return
    for st, x in outs:
        g = only(x, 0)
        if expect is None:
            r.ob(key, g is not None, w, f"the bundle is valid; reported: {pv(F, x)[:400]}")
            continue
        e = only(x, 1)
        if not r.ob(key, g is None and e is not None and e[0] == "t", w, f"errors {expect} must be reported; found {pv(F, x)[:400]}"):
            continue
        left = [(words(i) or "?").lower() for i in e[1]]
        for ws in sorted(expect, key=lambda t: -len(t)):
            hit = next((i for i in left if all(x.lower() in i for x in ws)), None)
            r.ob(f"{key}:reports:{' '.join(ws)}", hit is not None, w, f"no error about {' '.join(ws)} among {[pv(F, i) for i in e[1]]}")
            if hit is not None:
                left.remove(hit)
        r.ob(f"{key}:nothing-else", not left, w, f"errors reported for no reason: {left}")


def small(r, langs=("eng",)):
    """two attributes with every kind of metadata, in one language"""
    return bd.gen(r, ap.box(r, [bd.full(r, "a", [LN[l] for l in langs]), bd.full(r, "b", [LN[l] for l in langs])]
                            + [ap.attr(r, sym(x), attribute_type=some(r_type(r))) for x in ("a.dep1", "a.dep2", "b.dep1", "b.dep2")],
                            meta=some(mp(*[(LN[l], mp((S("!k"), S("!m" + l)))) for l in langs])), classification=some(S("!cls"))))[0]


def r_type(r):
    return variant(r.F, OA + "attributes::NestedAttrType", "Value", variant(r.F, OA + "AttributeType", "Text"))


def ovname(r, o):
    return o[1].split("::")[-1].replace("Overlay", "")


def strip_conditions(r, b):
    """without its conditional overlay: whether a condition is a good one is not decided statically"""
    ovs = field(r.F, b, "overlays")
    return tuple(o for o in ovs[1] if ovname(r, o) != "Conditional")


def sealed(r, key, bx):
    b, w = bd.gen(r, bx)
    if b is None:
        raise Missing("a generated bundle")
    return b


def box(r, cond=False, extra=(), **kw):
    langs = kw.pop("langs", (ENG,))
    attrs = []
    for n in ("a", "b"):
        a = bd.full(r, n, langs)
        attrs.append(a if cond else setf(r.F, a, condition=NONE, dependencies=NONE))
    return ap.box(r, attrs + [ap.attr(r, sym(x), attribute_type=some(r_type(r)), is_flagged=TRUE if x == "f" else FALSE) for x in ("f",) + tuple(extra)],
                  meta=some(mp(*[(l, mp((S("!k"), S("!m" + l[1][5:])))) for l in langs])), classification=some(S("!cls")))


SAID_CB = ("capture_base", "said")
SAID_B = ("oca bundle", "said")


def tamper(r):
    F = r.F
    b = sealed(r, "tamper", box(r))
    validate(r, "valid", b, (), None)
    validate(r, "valid:empty", sealed(r, "e", ap.box(r, [])), (), None)
    cb, ovs = field(F, b, "capture_base"), field(F, b, "overlays")
    # the capture base
    T = r_type(r)
    at = field(F, cb, "attributes")
    other = variant(F, OA + "attributes::NestedAttrType", "Value", variant(F, OA + "AttributeType", "Numeric"))
    for n, x in (("classification", S("!other")), ("attributes", mp(*(list(at[1]) + [(S("!more"), T)]))), ("attributes", mp(*at[1][1:])),
                 ("attributes", mp(*([(at[1][0][0], other)] + list(at[1][1:])))), ("flagged_attributes", vec()), ("flagged_attributes", vec(S("!a"), S("!f")))):
        validate(r, f"tamper:capture-base:{n}", setf(F, b, capture_base=setf(F, cb, **{n: x})), (), [SAID_CB, SAID_B])
    # identifiers replaced or left out
    alien = sealed(r, "x", ap.box(r, [ap.attr(r, sym("z"), attribute_type=some(T), unit=some(S("!z.unit")))]))
    acb = field(F, field(F, alien, "capture_base"), "said")
    asd = field(F, alien, "said")
    every = [("mismatch", ovname(r, o)) for o in ovs[1]]
    for n, x, y in (("none", NONE, NONE), ("other", acb, asd)):
        validate(r, f"tamper:capture-base:said-{n}", setf(F, b, capture_base=setf(F, cb, said=x)), (), [SAID_CB, SAID_B] + every)
        validate(r, f"tamper:bundle:said-{n}", setf(F, b, said=y), (), [SAID_B])
    # overlays: content, identifier, capture base, one too few, one too many
    kinds = set()
    for i, o in enumerate(ovs[1]):
        n = ovname(r, o)
        kinds.add(n)
        put = lambda x: setf(F, b, overlays=("t", ovs[1][:i] + ((x,) if x is not None else ()) + ovs[1][i + 1:]))
        for fl in F.adts[o[1]]["v"][0]["f"]:
            fn, old = fl["n"], field(F, o, fl["n"])
            if fn in ("said", "capture_base", "overlay_type", "_category_attributes", "language") or old is None:
                continue
            new = changed(r, old)
            if new is not None:
                validate(r, f"tamper:{n}:{fn}", put(setf(F, o, **{fn: new})), (), [("malformed", n), SAID_B])
        if field(F, o, "language") is not None:
            validate(r, f"tamper:{n}:language", put(setf(F, o, language=POL)), (), [("malformed", n, "pol"), SAID_B])
        validate(r, f"tamper:{n}:said-none", put(setf(F, o, said=NONE)), (), [("malformed", n), SAID_B])
        validate(r, f"tamper:{n}:said-other", put(setf(F, o, said=acb)), (), [("malformed", n), SAID_B])
        validate(r, f"tamper:{n}:capture-base", put(setf(F, o, capture_base=acb)), (), [("malformed", n), ("mismatch", n), SAID_B])
        validate(r, f"tamper:{n}:capture-base-none", put(setf(F, o, capture_base=NONE)), (), [("malformed", n), ("mismatch", n), SAID_B])
        validate(r, f"tamper:{n}:dropped", put(None), (), [SAID_B])
        # sealed again for another capture base: its own identifier is right, what it belongs to is not
        of = [f for t, f in F.impls.get((OB + "state::oca::overlay::Overlay", "sign"), []) if t.get("p") == o[1]]
    r.ob("tamper:kinds", len(kinds) >= 12, "", f"overlay kinds tampered with: {sorted(kinds)}")
    aov = field(F, alien, "overlays")
    validate(r, "tamper:foreign-overlay", setf(F, b, overlays=("t", ovs[1] + aov[1])), (), [("mismatch", "Unit"), SAID_B])
    resealed(r, "tamper:foreign-overlay:resealed", setf(F, b, overlays=("t", ovs[1] + aov[1])), [("mismatch", "Unit")])
    resealed(r, "tamper:all-resealed", b, None)
    # several at once
    lab = [i for i, o in enumerate(ovs[1]) if ovname(r, o) == "Label"][0]
    u = [i for i, o in enumerate(ovs[1]) if ovname(r, o) == "Unit"][0]
    l = list(ovs[1])
    l[lab] = setf(F, l[lab], said=acb)
    l[u] = setf(F, l[u], said=acb)
    both = setf(F, b, capture_base=setf(F, cb, classification=S("!other")), overlays=("t", tuple(l)))
    validate(r, "tamper:several", both, (), [SAID_B, SAID_CB, ("malformed", "Label"), ("malformed", "Unit")])
    return b


def resealed(r, key, b, expect):
    """the identifier of the bundle computed again"""
    f = r.method("oca::OCABundle", "fill_said")
    outs = r.run(f, [Ref(b, "bundle")])
    vs = {E(st, "bundle") for st, _ in outs}
    if len(vs) != 1:
        raise Missing("one way to seal a bundle")
    validate(r, key, vs.pop(), (), expect)


def changed(r, v):
    """a value of the same shape with different content"""
    if v[0] == "m" and v[1]:
        k, x = v[1][0]
        c = changed(r, x)
        return ("m", ((k, c),) + v[1][1:]) if c is not None else ("m", v[1][1:])
    if v[0] == "t" and v[1]:
        return ("t", v[1][1:])
    if v[0] in ("s", "k", "cat"):
        return S("!changed")
    if v == mp() or v == vec():
        return None
    if v[0] == "a" and v[1] in r.F.adts and len(v[2]) == 1:
        ad = r.F.adts[v[1]]["v"]
        if not v[2][0][1]:
            j = (v[2][0][0] + 1) % len(ad)
            return ("a", v[1], ((j, ()),)) if not ad[j]["f"] else None
        for f, x in zip(ad[v[2][0][0]]["f"], v[2][0][1]):
            c = changed(r, x)
            if c is not None and ad[0]["f"] and len(ad) == 1:
                return setf(r.F, v, **{f["n"]: c})
    return None


# ------------------------------------------------------------------ translations
def expect(kind, per, langs):
    """per: {language: set of names}"""
    out = []
    if not per:
        return out
    for l in sorted(set(per) - set(langs)):
        out.append((kind, "not enforced", l))
    for l in sorted(set(langs) - set(per)):
        out.append((kind, "are missing", l))
    names = set().union(*per.values())
    for l in sorted(per):
        out += [(kind, l, n, "missing") for n in sorted(names - per[l])]
    return out


def translations(r):
    F = r.F
    A = lambda n, **kw: ap.attr(r, sym(n), attribute_type=some(r_type(r)), **kw)
    EE = OB + "state::entries::EntriesElement"
    ent = lambda n, l: variant(F, EE, "Sai", S(f"!SAID{n}.{l}"))
    kinds = {"Label": ("labels", lambda n, l: S(f"!{n}.{l}")), "Information": ("informations", lambda n, l: S(f"!{n}.{l}")), "Entry": ("entries", ent)}
    shapes = [  # languages of attribute a, of attribute b
        (("eng",), ("eng",)), (("eng", "pol"), ("eng", "pol")), (("eng", "pol"), ("eng",)), (("eng",), ("pol",)), ((), ("eng", "fra")), ((), ())]
    enforced = [("eng",), ("pol",), ("eng", "pol"), ("fra", "pol", "eng")]

    for kind, (fld, val) in kinds.items():
        for la, lb in shapes:
            kw = lambda n, ls: {fld: some(mp(*[(LN[l], val(n, l)) for l in ls]))} if ls else {}
            b = sealed(r, "t", ap.box(r, [A("aname", **kw("aname", la)), A("bname", **kw("bname", lb)), A("cname")]))
            per = {}
            for n, ls in (("aname", la), ("bname", lb)):
                for l in ls:
                    per.setdefault(l, set()).add(n)
            for langs in enforced:
                e = expect(kind, per, langs)
                validate(r, f"translations:{kind}:{'+'.join(la)}/{'+'.join(lb)}:{'+'.join(langs)}", b, [LN[l] for l in langs], e or None)
            validate(r, f"translations:{kind}:{'+'.join(la)}/{'+'.join(lb)}:none", b, [], None)
    for la, lb in shapes:
        ms = {}
        for n, ls in (("kname", la), ("kdesc", lb)):
            for l in ls:
                ms.setdefault(l, {})[n] = S(f"!{n}.{l}")
        b = sealed(r, "t", ap.box(r, [A("aname")], meta=some(mp(*[(LN[l], mp(*[(sym(n), x) for n, x in d.items()])) for l, d in ms.items()])) if ms else NONE))
        for langs in enforced:
            e = expect("meta", {l: set(d) for l, d in ms.items()}, langs)
            validate(r, f"translations:Meta:{'+'.join(la)}/{'+'.join(lb)}:{'+'.join(langs)}", b, [LN[l] for l in langs], e or None)
    # all at once, in a bundle that was tampered with
    b = sealed(r, "t", ap.box(r, [A("aname", labels=some(mp((ENG, S("!x")))), informations=some(mp((FRA, S("!y"))))), A("bname", labels=some(mp((POL, S("!z")))))],
                              meta=some(mp((ENG, mp((S("!kname"), S("!v"))))))))
    b = setf(F, b, said=field(F, field(F, b, "capture_base"), "said"))
    validate(r, "translations:together", b, [ENG], [SAID_B, ("Label", "pol", "not enforced"), ("Label", "pol", "aname", "missing"), ("Label", "eng", "bname", "missing"),
                                                  ("Information", "fra", "not enforced"), ("Information", "eng", "are missing")])


# ------------------------------------------------------------------ conditions
def conditions(r):
    F = r.F
    T = OA + "attributes::NestedAttrType"
    leaf = lambda n: variant(F, T, "Value", variant(F, OA + "AttributeType", n))
    arr = lambda x: variant(F, T, "Array", x)
    tys = [leaf(n) for n in ("Text", "Numeric", "DateTime", "Binary", "Boolean")]
    tys += [arr(x) for x in tys] + [arr(arr(leaf("Text"))), variant(F, T, "Null"), variant(F, T, "Reference", variant(F, OA + "RefValue", "Said", S("!SAIDref")))]
    tys += [arr(tys[-1]), arr(arr(arr(leaf("Numeric"))))]
    C = lambda n, c, d, **kw: ap.attr(r, sym(n), attribute_type=some(leaf("Text")), condition=some(c), dependencies=some(vec(*d)), **kw)
    cat = lambda *p: ("cat", tuple(K(x) if isinstance(x, str) else x for x in p))

    def check(key, attrs, expect, b=None, **sub):
        """errors other than the interpreter's verdict on a well-formed condition"""
        b = b or sealed(r, "c", ap.box(r, attrs))
        validate_some(r, "conditions:" + key, b, expect)
    P = lambda n, t=None: ap.attr(r, sym(n), attribute_type=some(t or leaf("Numeric")))
    for i, t in enumerate(tys):
        check(f"type{i}", [C("aname", cat("${0} > ", S("!v")), [sym("dname")]), P("dname", t)], [])
    check("self", [C("aname", cat("${0} > ", S("!v")), [sym("aname")])], [("aname", "itself")])
    check("self-second", [C("aname", cat("${0} > ${1}"[:4], " > ${1}"), [sym("dname"), sym("aname")]), P("dname")], [("aname", "itself")])
    check("unknown", [C("aname", cat("${0} > ", S("!v")), [sym("dname")])], [("aname", "dname")])
    check("unknown-second", [C("aname", cat("${0} > ", S("!v"), " and ${1} < 3"), [sym("dname"), sym("ename")]), P("dname")], [("aname", "ename")])
    check("two-bad", [C("aname", cat("${0} > ", S("!v")), [sym("aname")]), C("bname", cat("${0} > ", S("!v")), [sym("dname")]), P("ename")], [("aname", "itself"), ("bname", "dname")])
    check("bad-and-good", [C("aname", cat("${0} > ", S("!v")), [sym("ename")]), C("bname", cat("${0} > ", S("!v")), [sym("dname")]), P("ename")], [("bname", "dname")])
    # a stored bundle can say more than the builder writes
    b = sealed(r, "c", ap.box(r, [C("aname", cat("${0} > ", S("!v")), [sym("dname")]), P("dname")]))
    ovs = field(F, b, "overlays")
    ci = [i for i, o in enumerate(ovs[1]) if ovname(r, o) == "Conditional"]
    if len(ci) != 1:
        raise Missing("one conditional overlay")
    o = ovs[1][ci[0]]
    put = lambda **kw: setf(F, b, overlays=("t", ovs[1][:ci[0]] + (setf(F, o, **kw),) + ovs[1][ci[0] + 1:]))
    seal_errors = [("malformed", "Conditional"), SAID_B]
    check("index", None, seal_errors + [("aname", "${3}")], put(attribute_conditions=mp((sym("aname"), cat("${0} > ${3}"[:4], " > ${3}")))))
    check("no-dependencies", None, seal_errors + [("aname", "${0}")], put(attribute_dependencies=mp()))
    check("with-tampered-seal", None, seal_errors + [("aname", "itself")], put(attribute_dependencies=mp((sym("aname"), vec(sym("aname"))))))
    nb = setf(F, b, capture_base=setf(F, field(F, b, "capture_base"), attributes=mp((sym("aname"), leaf("Text")))))
    check("attribute-removed", None, [SAID_CB, SAID_B, ("aname", "dname")], nb)
    many = [f"e{c}name" for c in "abcdefghijkl"]
    long = sum([["${%d} > " % i, S(f"!v{i}"), " and "] for i in range(11)], []) + ["${11} < 3"]
    check("many", [C("aname", cat(*long), [sym(n) for n in many])] + [P(n) for n in many], [])
    check("index-long", None, seal_errors + [("aname", "${12}")], put(attribute_conditions=mp((sym("aname"), cat("${0} > ${12}"[:4], " > ${12}")))))
    check("two-unknown", [C("aname", cat("${0} > ${1}"[:4], " > ${1}"), [sym("dname"), sym("ename")]), C("bname", cat("${0} > ", S("!v")), [sym("fname")])], [("aname", "dname"), ("aname", "ename"), ("bname", "fname")])
    # two conditional overlays
    o2 = setf(F, o, attribute_conditions=mp((sym("bname"), cat("${0} > ", S("!v")))), attribute_dependencies=mp((sym("bname"), vec(sym("bname")))))
    check("second-overlay", None, seal_errors + [("bname", "itself")], setf(F, b, overlays=("t", ovs[1] + (o2,))))


def drawn(r):
    """bundles with several kinds of texts in several languages, some of their parts exchanged, languages enforced in one call or two;
    and conditions with several dependencies; drawn from a fixed sequence"""
    F = r.F
    import random
    n = 1 if r.tier == "quick" else 10
    names, langs = ["aname", "bname", "cname", "dname"], ["eng", "pol", "fra"]
    EE = OB + "state::entries::EntriesElement"
    T = r_type(r)
    mk = {"labels": lambda a, l: S(f"!*{a}.label.{l}"), "informations": lambda a, l: S(f"!*{a}.info.{l}"), "entries": lambda a, l: variant(F, EE, "Sai", S(f"!SAID{a}.{l}"))}
    kind = {"labels": "Label", "informations": "Information", "entries": "Entry"}
    for i in range(40 * n):
        rnd = random.Random(f"translations{i}")
        sub = lambda xs, p: [x for x in xs if rnd.random() < p]
        per = {"Meta": {}}
        attrs = []
        for a in names:
            kw = {}
            for k in mk:
                ls = sub(langs, .6) if rnd.random() < .7 else []
                for l in ls:
                    per.setdefault(kind[k], {}).setdefault(l, set()).add(a)
                if ls:
                    kw[k] = some(mp(*[(LN[l], mk[k](a, l)) for l in ls]))
            attrs.append(ap.attr(r, sym(a), attribute_type=some(T), unit=some(S("!u")) if rnd.random() < .3 else NONE, **kw))
        meta = {}
        for l in sub(langs, .7):
            for k in sub(["kname", "kdesc", "kthird"], rnd.choice((.3, .6))) or ["kname"]:
                meta.setdefault(l, {})[k] = S(f"!*{k}.{l}")
        per["Meta"] = {l: set(d) for l, d in meta.items()}
        b = sealed(r, "d", ap.box(r, attrs, meta=some(mp(*[(LN[l], mp(*[(sym(k), x) for k, x in d.items()])) for l, d in meta.items()])) if meta else NONE))
        enf = sub(langs, .6) if rnd.random() < .9 else []
        rnd.shuffle(enf)
        e = []
        if enf:
            for k, p in per.items():
                e += expect(k, p, enf)
        if rnd.random() < .5:
            ovs = list(field(F, b, "overlays")[1])
            acb = field(F, field(F, b, "capture_base"), "said")
            bad = sub(range(len(ovs)), .3)
            for j in bad:
                l = field(F, ovs[j], "language")
                e.append(("malformed", ovname(r, ovs[j])) + ((l[1][5:],) if l is not None and l[0] == "k" else ()))
                ovs[j] = setf(F, ovs[j], said=acb)
            if bad:
                e.append(SAID_B)
                b = setf(F, b, overlays=("t", tuple(ovs)))
        validate(r, f"drawn:translations:{i}", b, [LN[l] for l in enf], e or None, rnd.choice((1, 1, 2)))
    cat = lambda *p: ("cat", tuple(K(x) if isinstance(x, str) else x for x in p))
    for i in range(8 * n):
        rnd = random.Random(f"conditions{i}")
        e, attrs = [], []
        for a in rnd.sample(names, rnd.randint(1, 4)):
            deps = rnd.sample(["pname", "qname", "rname", "sname"] + ["uname", "vname", "wname"] * (rnd.random() < .4) + [a] * (rnd.random() < .3), rnd.randint(1, 4))
            if a in deps:
                e.append((a, "itself"))
            else:
                e += [(f"'{a}'", d) for d in deps if d in ("uname", "vname", "wname")]
            parts = sum([["${%d} > " % j, S(f"!{a}{j}"), " and "] for j in range(len(deps))], [])
            attrs.append(ap.attr(r, sym(a), attribute_type=some(T), condition=some(cat(*parts, S(f"!{a}end"))), dependencies=some(vec(*[sym(d) for d in deps]))))
        attrs += [ap.attr(r, sym(x), attribute_type=some(T)) for x in ("pname", "qname", "rname", "sname")]
        rnd.shuffle(attrs)
        validate_some(r, f"drawn:conditions:{i}", sealed(r, "d", ap.box(r, attrs)), e)


def valid_mixed(r):
    """generated bundles with any combination of metadata are accepted"""
    import mixed
    for i in range(16 if r.tier == "quick" else 120):
        attrs, mt, cls = mixed.draw(r, i, "valid")
        attrs = [setf(r.F, a, condition=NONE, dependencies=NONE) for a in attrs]
        validate(r, f"valid:mixed:{i}", sealed(r, "m", mixed.boxof(r, (attrs, mt, cls))), (), None)


def validate_some(r, key, b, expect):
    """like validate, up to the verdict of the interpreter on conditions that are well formed"""
    import strmodels
    for verdict in (True, False):
        strmodels.LUA = verdict
        try:
            lua_case(r, f"{key}:{'evaluates' if verdict else 'fails'}", b, expect, verdict)
        finally:
            strmodels.LUA = None


def lua_case(r, key, b, expect, verdict):
    F = r.F
    f = r.method("state::validator::Validator", "validate")
    outs = r.run(f, [struct(F, VAL, "", enforced_translations=vec()), Ref(b, "bundle")])
    w = r.where(f)
    if not r.ob(f"{key}:total", not r.ip.panics and outs, w, f"validation can panic: {sorted(map(str, r.ip.panics))[:3]}"):
        return
    for st, x in outs:
        e, g = only(x, 1), only(x, 0)
        if not r.ob(f"{key}:determined", (g is not None) if e is None else e[0] == "t", w, f"the verdict is not determined: {pv(F, x)[:300]}"):
            continue
        if e is None:
            r.ob(key, not expect and verdict, w, f"errors must be reported ({expect}); found {pv(F, x)[:300]}")
            continue
        left = [(words(i) or "?").lower() for i in e[1]]
        for ws in expect:
            hit = next((i for i in left if all(y.lower() in i for y in ws)), None)
            r.ob(f"{key}:reports:{' '.join(ws)}", hit is not None, w, f"no error about {' '.join(ws)} among {[pv(F, i) for i in e[1]]}")
            if hit is not None:
                left.remove(hit)
        if not verdict:
            left = [i for i in left if "lua-verdict" not in i]
        r.ob(f"{key}:nothing-else", not left, w, f"errors reported for no reason: {left}")
