"""Identifiers and the JSON they are computed over."""
from base import *
import apply as ap
import bundle as bd
import sermodels as sm

MASK = K("#" * 44)


def emit(r, v, hash_rev=False):
    """the JSON document the Serialize implementation of a workspace value writes, or None when it is not one"""
    ip = Ip(r.F, budget=60.0)
    fn = next((f for t, f in r.F.impls.get(("serde::ser::Serialize", "serialize"), []) if t["k"] == "adt" and t["p"] == v[1]), None)
    if fn is None:
        raise Missing(f"no Serialize implementation for {v[1]}")
    outs = r.run(fn, [Ref(v, "ser"), sm.SER], hash_rev=hash_rev)
    docs = {only(x, 0) for _, x in outs}
    d = next(iter(docs)) if len(docs) == 1 else None
    return d if sm.exact_doc(d) else None


def big(r):
    attrs = {"a": (bd.L1, bd.L2), "b": (bd.L1,), "c": (bd.L2,)}
    return ap.box(r, [bd.full(r, a, l) for a, l in attrs.items()] + [ap.attr(r, sym(x), attribute_type=some(S(f"!{x}.type")), is_flagged=TRUE) for x in ("f1", "f2", "f3")],
                  meta=some(mp((bd.L1, mp((S("!k1"), S("!m1")), (S("!k2"), S("!m2")))), (bd.L2, mp((S("!k1"), S("!m3")))))), classification=some(S("!cls")))


def sealed(r, key, v, w, what, version=False):
    """the identifier of v is the digest of exactly the JSON written for v, its own field masked"""
    F = r.F
    said = only(field(F, v, "said"), 1)
    hf, doc = sm.digested(said)
    if not r.ob(f"{key}:digest", doc is not None, w, f"the identifier of {what} must be a digest of one JSON document on every path; found {pv(F, field(F, v, 'said'))[:300]}"):
        return None, None
    r.ob(f"{key}:hash-function", any("Blake3_256" in x for x in r.ip.labels(hf)), w, f"the identifier of {what} must be a Blake3-256 digest; it is {pv(F, hf)}")
    out = emit(r, v)
    dp, op = sm.pairs_of(doc), sm.pairs_of(out)
    if not r.ob(f"{key}:json", dp is not None and op is not None, w, f"the JSON of {what} is not determined: {pv(F, doc)[:300]} / {pv(F, out)[:300]}"):
        return said, None
    if version:
        r.ob(f"{key}:version-first", dp and dp[0][0] == K("v"), w, f"the JSON the identifier of {what} is computed over must start with its version")
        dp = [p for p in dp if p[0] != K("v")]
    op = [(k, MASK if k == K("d") else x) for k, x in op]
    keys = lambda ps: [pv(F, k) for k, _ in ps]
    r.ob(f"{key}:same-keys", keys(dp) == keys(op), w, f"the identifier of {what} is computed over the keys {keys(dp)}, its JSON has {keys(op)}")
    for (k, x), (k2, y) in zip(dp, op):
        if k == k2:
            r.ob(f"{key}:over:{pv(F, k)}", x == y, w, f"{what}: `{pv(F, k)}` is {pv(F, y)[:300]} in the JSON but its identifier was computed over {pv(F, x)[:300]}")
    return said, dp


def covers(r, key, v, doc, w, what):
    """every content field of v is in the document"""
    F = r.F
    have = sm.deep_labels(r.ip, sm.jobj(doc))
    for x in F.adts[v[1]]["v"][0]["f"]:
        if x["n"] in ("said", "_category_attributes"):
            continue
        need = {y for y in sm.deep_labels(r.ip, field(F, v, x["n"])) if y[0] == "!"}
        r.ob(f"{key}:covers:{x['n']}", need <= have, w, f"{x['n']} of {what} is not part of what its identifier is computed over: {sorted(need - have)[:6]}")


def seal(r):
    import codec
    seal_one(r, "seal", big(r))
    seal_one(r, "seal2", codec.source(r))


def seal_one(r, pre, bx):
    F = r.F
    b, w = bd.gen(r, bx)
    if b is None:
        r.ob(f"{pre}:returns", False, w, "no path returns a bundle")
        return
    cb = field(F, b, "capture_base")
    cbs, doc = sealed(r, f"{pre}:capture-base", cb, w, "the capture base")
    if doc:
        covers(r, f"{pre}:capture-base", cb, doc, w, "the capture base")
    ovs = field(F, b, "overlays")
    if ovs is None or ovs[0] != "t":
        r.ob(f"{pre}:overlays", False, w, f"overlays: {pv(F, ovs)[:300]}")
        return
    for i, o in enumerate(ovs[1]):
        n = o[1].split("::")[-1]
        key = f"{pre}:{n}:{bd.okey(r, o)[1] and pv(F, bd.okey(r, o)[1])}" if isinstance(bd.okey(r, o)[1], tuple) else f"{pre}:{n}"
        r.eq(f"{key}:capture-base", field(F, o, "capture_base"), some(cbs) if cbs is not None else None, w, f"capture base identifier recorded in {n}")
        s_, d = sealed(r, key, o, w, n)
        if d:
            covers(r, key, o, d, w, n)
            r.ob(f"{key}:masked", (K("d"), MASK) in d, w, f"the identifier of {n} must be computed with its own field masked")
    bs, doc = sealed(r, f"{pre}:bundle", b, w, "the bundle", version=True)
    if doc:
        covers(r, f"{pre}:bundle", b, doc, w, "the bundle")
        have = sm.deep_labels(r.ip, sm.jobj(doc))
        for o in ovs[1]:
            s_ = only(field(F, o, "said"), 1)
            r.ob(f"{pre}:bundle:lists:{o[1].split('::')[-1]}", s_ is not None and set(s_[1]) <= have, w, f"an overlay ({o[1].split('::')[-1]}) is missing from what the identifier of the bundle is computed over")


# ------------------------------------------------------------------ same content, same identifier
def generic(r, t, name, depth=0):
    """a value of a field type whose hash tables have several entries"""
    from models import tyname, is_map, unordered
    n = tyname(t)
    a = [x for x in t.get("a") or [] if isinstance(x, dict)]
    if depth > 4:
        return S("!" + name)
    if n == OPTION:
        return some(generic(r, a[0], name, depth + 1))
    if is_map(t):
        return mp(*[(S(f"!{name}.k{i}"), generic(r, a[1], f"{name}.v{i}", depth + 1)) for i in "132"])
    if n.split("::")[-1] in ("Vec", "HashSet", "BTreeSet"):
        return vec(*[generic(r, a[0], f"{name}.e{i}", depth + 1) for i in "132"])
    ad = r.F.adts.get(n)
    if ad and ad["kind"] == "struct" and ad["local"] and depth < 4:
        return struct(r.F, n, "", **{f["n"]: generic(r, f["t"], f"{name}.{f['n']}", depth + 1) for f in ad["v"][0]["f"]})
    return S("!" + name)


def determinism(r):
    import codec
    determinism_one(r, "determinism", big(r))
    determinism_one(r, "determinism2", codec.source(r))
    determinism_kinds(r)


def determinism_one(r, pre, bx):
    F = r.F
    bs = []
    for rev in (False, True):
        b, w = bd.gen(r, bx, hash_rev=rev)
        bs.append((b, emit(r, b, hash_rev=rev) if b is not None else None))
    (b1, d1), (b2, d2) = bs
    if not r.ob(f"{pre}:returns", b1 is not None and b2 is not None, w, "no path returns a bundle"):
        return
    sid = lambda b: only(field(F, b, "said"), 1)
    g = lambda b: only(field(F, field(F, b, "capture_base"), "said"), 1)
    r.ob(f"{pre}:json-known", d1 is not None and sm.pairs_of(d1) is not None, w, "the JSON of the bundle is not determined")
    r.ob(f"{pre}:capture-base", g(b1) is not None and g(b1) == g(b2), w, "the identifier of the capture base depends on the iteration order of a hash table")
    def said_of(b):
        d = {}
        for o in field(F, b, "overlays")[1]:
            d.setdefault((pv(F, field(F, o, "overlay_type")), pv(F, bd.okey(r, o)[1])), set()).add(only(field(F, o, "said"), 1))
        return d
    o1, o2 = said_of(b1), said_of(b2)
    r.ob(f"{pre}:overlays", set(o1) == set(o2), w, "which overlays are generated depends on the iteration order of a hash table")
    for k in sorted(o1):
        r.ob(f"{pre}:overlay:{k[0]}:{k[1]}", None not in o1[k] and o1[k] == o2.get(k), w, f"the identifier of the {k[0]} overlay depends on the iteration order of a hash table")
    r.ob(f"{pre}:bundle", sid(b1) is not None and sid(b1) == sid(b2), w, "the identifier of the bundle depends on the iteration order of a hash table")
    r.ob(f"{pre}:json", d1 is not None and d1 == d2, w, "the JSON of the bundle depends on the iteration order of a hash table: " + ("" if d1 is None or d2 is None else "; ".join(vdiff(F, d2, d1))[:600]))


def determinism_kinds(r):
    F = r.F
    # every overlay the workspace knows, whether or not the builder generates it
    ovs = sorted({t["p"] for t, _ in F.impls.get((bd.OB + "state::oca::overlay::Overlay", "add"), []) if t["k"] == "adt"})
    r.ob("determinism:overlay-kinds", len(ovs) >= 13, "", f"{len(ovs)} overlay implementations found")
    for p in ovs + [bd.OB + "state::oca::capture_base::CaptureBase"]:
        import codec
        v = struct(F, p, "", **{f["n"]: generic(r, f["t"], f["n"]) for f in F.adts[p]["v"][0]["f"]})
        vs = [v] + codec.cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v")
        for i, v in enumerate(vs[1:]):
            if p.endswith("::StandardOverlay"):
                break
            a, c = emit(r, v, False), emit(r, v, True)
            r.ob(f"determinism:kind:{p.split('::')[-1]}:{i}", a is not None and sm.pairs_of(a) is not None and a == c, p,
                 f"the JSON of {p.split('::')[-1]} depends on the iteration order of a hash table: {pv(F, a)[:500]} / {pv(F, c)[:500]}")
        a, c = emit(r, vs[0], False), emit(r, vs[0], True)
        r.ob(f"determinism:kind:{p.split('::')[-1]}", a is not None and sm.pairs_of(a) is not None and a == c, p,
             f"the JSON of {p.split('::')[-1]} depends on the iteration order of a hash table: {pv(F, a)[:500]} / {pv(F, c)[:500]}")


def kinds_sealed(r):
    """every overlay the workspace knows, signed for a capture base, whatever identifiers it had before"""
    import codec
    F = r.F
    OV = bd.OB + "state::oca::overlay::Overlay"
    for p in codec.kinds(r):
        n = p.split("::")[-1]
        ot = codec.overlay_variant(r, p)
        fs = [f for f in F.method(p, "sign")] or [f for f in F.fns.values() if f.p == OV + "::sign" and f.body]
        if not r.ob(f"sign:{n}", len(fs) == 1 and ot is not None, p, f"how {n} is signed is not determined"):
            continue
        w = r.where(fs[0])
        vs = {repr(v): v for v in (codec.setf(F, v, "overlay_type", ot) for v in codec.cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v"))}.values()
        for i, v in enumerate(vs):
            for had in ("new", "signed"):
                if had == "new":
                    v = codec.setf(F, codec.setf(F, v, "said", NONE), "capture_base", NONE)
                else:
                    v = codec.setf(F, codec.setf(F, v, "said", some(S("!SAIDold"))), "capture_base", some(S("!SAIDoldcb")))
                key = f"sign:{n}:{had}:{i}"
                outs = r.run(fs[0], [Ref(v, "self"), Ref(S("!SAIDcb"), "cb")])
                if not r.ob(f"{key}:returns", outs and not r.ip.panics, w, f"signing {n} does not return, or can panic: {list(r.ip.panics)}"):
                    continue
                for st, _ in outs:
                    o = E(st, "self")
                    r.eq(f"{key}:capture-base", field(F, o, "capture_base"), some(S("!SAIDcb")), w, f"capture base recorded in a signed {n}")
                    for x in F.adts[p]["v"][0]["f"]:
                        if x["n"] not in ("said", "capture_base"):
                            r.eq(f"{key}:keeps:{x['n']}", field(F, o, x["n"]), field(F, v, x["n"]), w, f"{x['n']} of a signed {n}")
                    _, d = sealed(r, key, o, w, n)
                    if d:
                        covers(r, key, o, d, w, n)
                        r.ob(f"{key}:masked", (K("d"), MASK) in d, w, f"the identifier of {n} must be computed with its own field masked")
    for p, fn_, ver in ((bd.OB + "state::oca::capture_base::CaptureBase", "sign", False), (bd.OB + "state::oca::capture_base::CaptureBase", "fill_said", False), (bd.OB + "state::oca::OCABundle", "fill_said", True)):
        n = p.split("::")[-1]
        fs = [f for f in F.method(p, fn_) if f.body]
        if not r.ob(f"sign:{n}:{fn_}", len(fs) == 1, p, f"{n} has no method {fn_}"):
            continue
        w = r.where(fs[0])
        vs = codec.cover(r, {"k": "adt", "p": p, "s": p, "a": []}, "v") if not ver else [x for x in (codec.bundle_value(r),) if x is not None]
        for i, v in enumerate(vs):
            for old in (NONE, some(S("!SAIDold"))):
                v = codec.setf(F, v, "said", old)
                key = f"sign:{n}:{fn_}:{i}:{'new' if old == NONE else 'signed'}"
                outs = r.run(fs[0], [Ref(v, "self")])
                if not r.ob(f"{key}:returns", outs and not r.ip.panics, w, f"signing {n} does not return, or can panic: {list(r.ip.panics)}"):
                    continue
                for st, _ in outs:
                    o = E(st, "self")
                    for x in F.adts[p]["v"][0]["f"]:
                        if x["n"] != "said":
                            r.eq(f"{key}:keeps:{x['n']}", field(F, o, x["n"]), field(F, v, x["n"]), w, f"{x['n']} of a signed {n}")
                    _, d = sealed(r, key, o, w, n, version=ver)
                    if d:
                        covers(r, key, o, d, w, n)
                        r.ob(f"{key}:masked", (K("d"), MASK) in d, w, f"the identifier of {n} must be computed with its own field masked")
