"""Boxes in which every combination of metadata occurs: each attribute carries its own subset of kinds, languages, targets and frames.
The combinations are drawn from a fixed sequence; every value in them is symbolic."""
import random
from base import *
import apply as ap
import bundle as bd

EC = OB + "state::entry_codes::EntryCodes"
EE = OB + "state::entries::EntriesElement"
LANGS = [K("lang:eng"), K("lang:fra"), K("lang:deu")]
SHORT = {"lang:eng": "en", "lang:fra": "fr", "lang:deu": "de"}
KINDS = list(bd.PER_ATTR) + list(bd.PER_KEY) + ["framings"]


def some_of(rnd, xs, least=1):
    xs = list(xs)
    k = rnd.randint(min(least, len(xs)), len(xs))
    return rnd.sample(xs, k)


def types(r):
    import codec
    T = codec.types(r)
    return [T[k] for k in sorted(T)]


def condition(rnd, a):
    """a condition and its dependencies, numbered by first appearance"""
    n = rnd.choice((0, 1, 2, 3, 12))
    deps = [S(f"!{a}.dep{i}") for i in range(n)]
    parts = []
    for i in range(n):
        parts += ["${%d} > " % i, S(f"!{a}.c{i}"), " and "]
        if i and rnd.random() < .4:
            parts += ["${%d} or " % rnd.randrange(i)]
    return text(*parts, S(f"!{a}.cond")), vec(*deps)


def frame_meta(fid):
    return mp(*[(K("frame_" + n), S(f"!*f{n}{fid}")) for n in (("label", "version"), ("label", "location", "version"), ())[int(fid) % 3]])


def metadata(r, rnd, a, k, tag=""):
    """{field: value} of one kind of metadata"""
    F = r.F
    T = lambda n: S(f"!*{a}{tag}.{n}")
    # a value may be the same text as another one, or as the name of an attribute, its own or another's
    same = rnd.random() < .25
    V = lambda n: rnd.choice((sym(a), sym(a), sym("a"), S("!*same"), T(n))) if same else T(n)
    if k == "encoding":
        vs = F.adts[OB + "state::encoding::Encoding"]["v"]
        return {k: some(ap.ENC(r, rnd.choice([v["n"] for v in vs])))}
    if k == "condition":
        c, d = condition(rnd, a + tag)
        return {k: some(c), "dependencies": some(d)}
    if k == "entry_codes":
        w = rnd.choice(("Sai", "Array", "Object"))
        codes = lambda p: vec(*[T(f"code{p}{i}") for i in range(rnd.randint(1, 3))])
        v = S(f"!SAID{a}{tag}codes") if w == "Sai" else codes("") if w == "Array" else mp(*[(T(f"group{i}"), codes(str(i))) for i in range(rnd.randint(1, 3))])
        return {k: some(variant(F, EC, w, v))}
    if k == "entries":
        def one(l):
            if rnd.random() < .3:
                return variant(F, EE, "Sai", S(f"!SAID{a}{tag}entries{SHORT[l[1]]}"))
            return variant(F, EE, "Object", mp(*[(T(f"code{i}"), V(f"entry{i}{SHORT[l[1]]}")) for i in some_of(rnd, range(4))]))
        return {k: some(mp(*[(l, one(l)) for l in some_of(rnd, LANGS)]))}
    if k in ("labels", "informations"):
        return {k: some(mp(*[(l, V(k + SHORT[l[1]])) for l in some_of(rnd, LANGS)]))}
    if k == "links":
        return {k: some(mp(*[(S("!SAIDtarget" + t), V("link" + t)) for t in some_of(rnd, "123")]))}
    if k == "framings":
        return {k: some(mp(*[(S("!fid" + i), mp(*[(T(f"term{t}{i}"), struct(F, bd.FS, "", predicate_id=V(f"p{t}{i}"), framing_justification=V(f"j{t}{i}"), frame_meta=frame_meta(i)))
                                                  for t in some_of(rnd, "123")])) for i in some_of(rnd, "123")]))}
    return {k: some(V(k))}


def attribute(r, rnd, a, kinds=None, tag="", ts=None):
    kw = {}
    if kinds is None:
        p = rnd.choice((0, .25, .5, .5, .75, 1))
        kinds = [k for k in KINDS if rnd.random() < p]
    for k in kinds:
        kw.update(metadata(r, rnd, a, k, tag))
    return ap.attr(r, sym(a), attribute_type=some(rnd.choice(ts or types(r))), is_flagged=TRUE if rnd.random() < .3 else FALSE, **kw)


def meta(rnd):
    ls = some_of(rnd, LANGS, 0)
    if not ls:
        return NONE
    return some(mp(*[(l, mp(*[(K(n), S(f"!*meta{n}{SHORT[l[1]]}")) for n in some_of(rnd, ("name", "description", "version", "contact"))])) for l in ls]))


def draw(r, i, what=""):
    """-> (attributes, meta, classification) of the i-th box"""
    rnd = random.Random(f"{what}{i}")
    ts = types(r)
    return ([attribute(r, rnd, a, ts=ts) for a in "abcd"[:rnd.choice((1, 2, 3, 3, 4, 4))]], meta(rnd), some(S("!cls" if what == "rebuild" else "!*cls")) if rnd.random() < .6 else NONE)     # an empty classification and none are the same in a bundle


def boxof(r, d):
    attrs, mt, cls = d
    return ap.box(r, attrs, meta=mt, classification=cls)


def expected(r, d):
    """{(overlay struct, key): {field: value}} a bundle of this box must have"""
    F = r.F
    attrs, mt, cls = d
    exp = {}
    def put(k, fld, n, v, **more):
        e = exp.setdefault(k, {})
        e[fld] = mp(*(list(e[fld][1]) if fld in e else []), (n, v))
        for x, y in more.items():
            e.setdefault(x, y)
    for at in attrs:
        n = field(F, at, "name")
        for f, (st, ty, fld) in bd.PER_ATTR.items():
            v = only(field(F, at, f), 1)
            if v is not None:
                put((st, None), fld, n, v)
                if f == "condition":
                    put((st, None), "attribute_dependencies", n, only(field(F, at, "dependencies"), 1))
        for f, (st, ty, kf, fld) in bd.PER_KEY.items():
            m = only(field(F, at, f), 1)
            for k, v in (m[1] if m is not None else ()):
                put((st, k), fld, n, v, **{kf: k}, **(dict(category_labels=mp(), attribute_categories=vec()) if f == "labels" else {}))
        m = only(field(F, at, "framings"), 1)
        for k, v in (m[1] if m is not None else ()):
            put((bd.FRAMING[0], k), "attribute_framing", n, v, metadata=mp((K("frame_id"), k), *frame_meta(k_id(k))[1]))
    m = only(mt, 1)
    for l, kv in (m[1] if m is not None else ()):
        exp[(bd.META[0], l)] = {"language": l, "attr_pairs": kv}
    return exp


def k_id(k):
    return next(iter(k[1]))[-1]


def key(r, ov):
    n, k = bd.okey(r, ov)
    if n == bd.FRAMING[0]:
        return (n, mget(field(r.F, ov, "metadata"), K("frame_id")))
    return (n, k)


def count(r, quick, thorough=None):
    return quick if r.tier == "quick" else thorough or quick * 8


# ------------------------------------------------------------------ the properties, over such boxes
def generate(r):
    F = r.F
    for i in range(count(r, 40)):
        d = draw(r, i, "generate")
        b, w = bd.gen(r, boxof(r, d))
        pre = f"generate:mixed:{i}"
        if not r.ob(pre + ":returns", b is not None and not r.ip.panics, w, f"no path returns a bundle, or it can panic: {sorted(str(k[1]) for k in r.ip.panics)}"):
            continue
        bd.compare(r, pre, b, expected(r, d), w, key)
        cb = field(F, b, "capture_base")
        attrs, mt, cls = d
        r.eq(pre + ":attributes", field(F, cb, "attributes"), mp(*[(field(F, a, "name"), only(field(F, a, "attribute_type"), 1)) for a in attrs]), w, "capture base attributes")
        r.eq(pre + ":classification", field(F, cb, "classification"), only(cls, 1) if cls != NONE else K(""), w, "capture base classification")
        fl = field(F, cb, "flagged_attributes")
        want = vec(*[field(F, a, "name") for a in attrs if field(F, a, "is_flagged") == TRUE])
        r.ob(pre + ":flagged", fl is not None and fl[0] == "t" and sorted(map(str, fl[1])) == sorted(map(str, want[1])), w, f"flagged attributes: {pv(F, fl)}, expected {pv(F, want)}")


def stripped(r, v):
    """framing scopes carry the frame's properties only until the overlay is made"""
    import codec
    return codec.skip_fields(r.F, v)


def bundle_value(r, d):
    """the bundle of this box, put together by hand"""
    F = r.F
    attrs, mt, cls = d
    cbs = some(S("!cbsaid"))
    tys = {x[0]: x[1] for x in list(bd.PER_ATTR.values()) + list(bd.PER_KEY.values()) + [bd.FRAMING, bd.META]}
    ovs = []
    for i, ((st, k), e) in enumerate(expected(r, d).items()):
        kw = dict(e)
        kw.update(said=some(S(f"!ovsaid{i}")), capture_base=cbs, overlay_type=variant(F, OA + "OverlayType", tys[st], K("1.1")))
        if st == "LabelOverlay":
            kw["_category_attributes"] = mp()
        if st == bd.FRAMING[0]:
            kw["attribute_framing"] = stripped(r, kw["attribute_framing"])
        ovs.append(struct(F, bd.OV + bd.OVPATH[st] + "::" + st, "", **kw))
    cb = struct(F, OB + "state::oca::capture_base::CaptureBase", "", said=cbs, schema_type=K("spec/capture_base/1.1"),
                attributes=mp(*[(field(F, a, "name"), only(field(F, a, "attribute_type"), 1)) for a in attrs]), classification=only(cls, 1) if cls != NONE else K(""),
                flagged_attributes=vec(*[field(F, a, "name") for a in attrs if field(F, a, "is_flagged") == TRUE]))
    return struct(F, OB + "state::oca::OCABundle", "", said=some(S("!bsaid")), capture_base=cb, overlays=vec(*ovs))


def same_box(r, pre, got, d, w, what):
    F = r.F
    attrs, mt, cls = d
    gc = field(F, got, "classification")
    r.ob(pre + ":classification", same_val(gc, cls) or cls == NONE and gc == some(K("")), w, f"classification {what}: {pv(F, gc)}, expected {pv(F, cls)}")
    r.eq(pre + ":meta", field(F, got, "meta"), mt, w, f"meta entries {what}")
    r.eq(pre + ":attributes", field(F, got, "attributes"), field(F, boxof(r, d), "attributes"), w, f"attributes {what}")


def load(r):
    f = r.method("oca::OCABox", "from", trait="From", targ="OCABundle")
    w = r.where(f)
    for i in range(count(r, 40)):
        d = draw(r, i, "load")
        vs = {v for _, v in r.run(f, [bundle_value(r, d)])}
        pre = f"load:mixed:{i}"
        if r.ob(pre + ":returns", len(vs) == 1 and not r.ip.panics, w, f"loading does not give one box, or can panic: {sorted(str(k[1]) for k in r.ip.panics)}"):
            same_box(r, pre, next(iter(vs)), d, w, "of the box loaded")


def rebuild(r):
    import rebuild as rb
    F = r.F
    for i in range(count(r, 24)):
        d = draw(r, i, "rebuild")
        b, w = bd.gen(r, boxof(r, d))
        pre = f"rebuild:mixed:{i}"
        if not r.ob(pre + ":bundle", b is not None, w, "no bundle is generated"):
            continue
        cs, w, pn = rb.commands_of(r, b)
        r.ob(pre + ":total", not pn, w, f"to_ast can panic on a bundle the builder makes: {pn}")
        if not r.ob(pre + ":commands", cs is not None and cs[0] == "t", w, f"the commands of a bundle are not determined by it: {pv(F, cs)[:300]}"):
            continue
        got = rb.replay(r, pre, cs, w)
        if got is not None:
            same_box(r, pre, got, d, w, "rebuilt from the commands of the bundle")


def sealing(r):
    import seal
    for i in range(count(r, 6)):
        seal.seal_one(r, f"seal:mixed:{i}", boxof(r, draw(r, i, "seal")))


def order(r):
    import seal
    for i in range(count(r, 6)):
        seal.determinism_one(r, f"determinism:mixed:{i}", boxof(r, draw(r, i, "order")))


FIELD = {"Label": "labels", "Information": "informations", "CharacterEncoding": "encoding", "Conformance": "conformance", "Format": "format", "Unit": "unit", "Cardinality": "cardinality",
         "EntryCode": "entry_codes", "Entry": "entries", "Conditional": "condition", "Link": "links", "AttributeFraming": "framings"}


def given(r, rnd, a, ov, key_):
    """a value stated for attribute a in an ADD command -> (value in the command, field, what the attribute has then: f(old field) -> new field, more fields)"""
    F = r.F
    V = lambda n: ap.val(r, n)
    fld = FIELD[ov]
    T = lambda n: S(f"!*{a}new.{n}")
    over = lambda v: lambda old: some(mp(*[(k, x) for k, x in (only(old, 1) or mp())[1] if k != key_], (key_, v)))
    if ov == "CharacterEncoding":
        e, t = rnd.choice((("Base64", "base64"), ("Utf8", "utf-8"), ("Iso8859_1", "iso-8859-1"), ("Utf16", "utf-16"), ("Utf16Be", "utf-16be"), ("Utf16Le", "utf-16le")))
        return V(K(t)), lambda old: some(ap.ENC(r, e)), {}
    if ov == "EntryCode":
        v = only(metadata(r, rnd, a, "entry_codes", "new")["entry_codes"], 1)
        i, (x,) = v[2][0]
        n = F.adts[EC]["v"][i]["n"]
        lst = lambda t: ap.arr(r, *[V(y) for y in t[1]])
        return (V(x) if n == "Sai" else lst(x) if n == "Array" else ap.obj(r, *[(k, lst(y)) for k, y in x[1]])), lambda old: some(v), {}
    if ov == "Entry":
        v = metadata(r, rnd, a, "entries", "new")["entries"]
        v = only(v, 1)[1][0][1]
        i, (x,) = v[2][0]
        return (V(x) if F.adts[EE]["v"][i]["n"] == "Sai" else ap.obj(r, *[(k, V(y)) for k, y in x[1]])), over(v), {}
    if ov == "Conditional":
        c, dps = condition(rnd, a + "new")
        parts = list(c[1]) if c[0] == "cat" else [c]
        out = []
        import re
        for p in parts:
            if p[0] == "k":
                for j, q in enumerate(re.split(r"\$\{(\d+)\}", p[1])):
                    out += ["${", dps[1][int(q)], "}"] if j % 2 else [q]
            else:
                out.append(p)
        return V(text(*out)), lambda old: some(c), {"dependencies": some(dps)}
    if ov == "AttributeFraming":
        sc = [(T(f"term{t}"), T(f"p{t}"), T(f"j{t}")) for t in some_of(rnd, "123")]
        new = [(t, struct(F, bd.FS, "", predicate_id=p, framing_justification=j, frame_meta=frame_meta(k_id(key_)))) for t, p, j in sc]
        def then(old):
            m = (only(old, 1) or mp())[1]
            was = dict(m).get(key_)
            keep = [x for x in (was[1] if was is not None else ()) if x[0] not in dict(new)]
            return some(mp(*[(k, x) for k, x in m if k != key_], (key_, mp(*keep, *new))))
        return ap.obj(r, *[(t, ap.obj(r, (K("predicate_id"), V(p)), (K("framing_justification"), V(j)))) for t, p, j in sc]), then, {}
    v = T(fld)
    return V(v), over(v) if fld in bd.PER_KEY else (lambda old: some(v)), {}


def command(r, rnd, ov, named):
    """an ADD command of this overlay for the named attributes -> (command, {attribute: (field update, more)})"""
    props, key_ = NONE, None
    if ov in ("Label", "Information", "Entry"):
        key_ = rnd.choice(LANGS)
        props = some(mp((K("lang"), ap.val(r, K(SHORT[key_[1]])))))
    elif ov == "Link":
        key_ = S("!SAIDtarget" + rnd.choice("123"))
        props = some(mp((K("target"), ap.refsaid(r, key_))))
    elif ov == "AttributeFraming":
        key_ = S("!fid" + rnd.choice("123"))
        ps = [(K("id"), ap.val(r, key_))] + [(K(k[1][6:]), ap.val(r, v)) for k, v in frame_meta(k_id(key_))[1]]
        rnd.shuffle(ps)
        props = some(mp(*ps))
    gs = {a: given(r, rnd, a, ov, key_) for a in named}
    c = ap.content(r, some(mp(*[(sym(a), g[0]) for a, g in gs.items()])), props)
    return ap.command(r, "Add", ap.overlay(r, ov, c)), {a: g[1:] for a, g in gs.items()}


def setfields(r, at, **kw):
    F = r.F
    return ap.attr(r, field(F, at, "name"), **{**{x["n"]: field(F, at, x["n"]) for x in F.adts[ATTR]["v"][0]["f"] if x["n"] != "name"}, **kw})


def effects(r):
    """an ADD of any overlay on any box changes the fields it names of the attributes it names and nothing else"""
    F = r.F
    f = ap.apply_fn(r)
    w = r.where(f)
    for ov in FIELD:
        for i in range(count(r, 8)):
            rnd = random.Random(f"effects{ov}{i}")
            d = draw(r, i, "effects" + ov)
            attrs, mt, cls = d
            names = "abcd"[:len(attrs)]
            c, upd = command(r, rnd, ov, some_of(rnd, names))
            want = []
            for n, at in zip(names, attrs):
                if n in upd:
                    then, more = upd[n]
                    at = setfields(r, at, **{FIELD[ov]: then(field(F, at, FIELD[ov]))}, **more)
                want.append(at)
            key_ = f"add-overlay:mixed:{ov}:{i}"
            outs = r.run(f, [some(boxof(r, d)), c])
            b = ap.one_ok(r, key_, outs, w, f"ADD {ov}")
            if b is not None:
                r.eq(key_, b, boxof(r, (want, mt, cls)), w, f"box after ADD {ov}")
            r.ob(key_ + ":total", not r.ip.panics, w, f"ADD {ov} on well-formed input can panic: {sorted(str(k[1]) for k in r.ip.panics)}")


def merging(r):
    """an attribute declared again with any metadata over any metadata"""
    import merge as mg
    F = r.F
    plain = [k for k in mg.PLAIN if k not in ("mapping", "entry_codes_mapping", "standards")]
    for i in range(count(r, 40)):
        rnd = random.Random(f"merge{i}")
        ts = types(r)
        old, new = attribute(r, rnd, "a", ts=ts), attribute(r, rnd, "a", tag="new", ts=ts)
        if rnd.random() < .5:
            new = setfields(r, new, attribute_type=NONE)
        kw = {}
        for n in plain:
            v = field(F, new, n)
            kw[n] = v if v != NONE else field(F, old, n)
        for n in mg.BYLANG:
            o, v = only(field(F, old, n), 1), only(field(F, new, n), 1)
            kw[n] = some(mp(*[(k, x) for k, x in (o[1] if o else ()) if k not in dict(v[1] if v else ())], *(v[1] if v else ()))) if o or v else NONE
        src = new if field(F, new, "condition") != NONE else old
        kw.update(condition=field(F, src, "condition"), dependencies=field(F, src, "dependencies"),
                  is_flagged=TRUE if TRUE in (field(F, old, "is_flagged"), field(F, new, "is_flagged")) else FALSE)
        want = setfields(r, old, **kw)
        for entry in ("merge", "add_attribute"):
            mg.both(r, f"{entry}:mixed:{i}", entry, old, new, want, "an attribute declared again")


def json(r):
    """bundles of such boxes are read back from their JSON"""
    import codec
    for i in range(count(r, 8)):
        b, w = bd.gen(r, boxof(r, draw(r, i, "json")))
        if r.ob(f"read:mixed:{i}:generated", b is not None, w, "no bundle is generated"):
            codec.bundle_one(r, f"read:mixed:{i}", b, key)
