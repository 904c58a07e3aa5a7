"""What the facade stores when a bundle is built, and what it gives back."""
import random
from base import *
import apply as ap
import bundle as bd
import codec
import rebuild as rb
import seal
import seal as se
import sermodels as sm

FC = "oca_rs::facade::Facade"
MEM = "oca_rs::data_storage::InMemoryDataStorage"
STEP = OB + "build::OCABuildStep"
BUILD = OB + "build::OCABuild"
CMD = OA + "Command"


def meth(r, name):
    return r.method("facade::Facade", name)


def facade(r):
    for x in (FC, MEM, STEP, BUILD):
        if x not in r.F.adts:
            raise Missing(f"type {x}")
    st = lambda: struct(r.F, MEM, "", db=mp())
    return struct(r.F, FC, "", db=st(), db_cache=st(), connection=struct(r.F, FC.replace("Facade", "Connection"), "", connection=S("!connection")))


def said(r, b):
    return only(field(r.F, b, "said"), 1)


def step(r, parent, c, b):
    return struct(r.F, STEP, "", parent_said=some(said(r, parent)) if parent else NONE, command=c, result=b)


def build_value(r, steps):
    return struct(r.F, BUILD, "", oca_bundle=field(r.F, steps[-1], "result"), steps=vec(*steps))


def bundles(r):
    """four bundles, each with more than the one before"""
    T = codec.types(r)
    A = lambda a, t, **kw: codec.typed(r, ap.attr(r, sym(a), **kw), T[t])
    lab = lambda **kw: some(mp(*[(K("lang:" + l), S("!*" + v)) for l, v in kw.items()]))
    return [bd.gen(r, bx)[0] for bx in (ap.box(r, [A("a", "text")]), ap.box(r, [A("a", "text"), A("b", "numbers")]),
                                        ap.box(r, [A("a", "text", labels=lab(eng="l1", fra="l2")), A("b", "numbers", labels=lab(eng="l3"))]), codec.source(r))]


def commands(r):
    """commands of every kind that are read back as they were written"""
    cs = codec.cover(r, {"k": "adt", "p": CMD, "s": CMD, "a": []}, "c")
    return cs


def after(r, key, fac, steps, hash_rev=False):
    """the facade after building; -> facade value or None"""
    f = meth(r, "build")
    w = r.where(f)
    bv = build_value(r, steps)
    outs = r.run(f, [Ref(fac, "self"), Ref(bv, "build")], hash_rev=hash_rev)
    r.ob(key + ":builds", len(outs) == 1 and same_val(only(outs[0][1], 0), field(r.F, bv, "oca_bundle")), w,
         f"building must give the bundle that was built: {[pv(r.F, v)[:120] for _, v in outs]}")
    sql = [s.fr.get("SQL", {}).get(0) for s, _ in outs]
    es = [E(s, "self") for s, _ in outs]
    if not r.ob(key + ":stores", es and es[0] is not None and all(same_val(x, es[0]) for x in es), w, "what is stored depends on more than the build"):
        return None, None
    return es[0], sql[0] if all(s == sql[0] for s in sql) else None


def ask(r, fac, name, *args, hash_rev=False, parts=None):
    """every answer of a query -> (where, [values], panics)"""
    f = meth(r, name)
    outs = r.run(f, [Ref(fac, "self")] + list(args), hash_rev=hash_rev, parts=parts)
    return r.where(f), [v for _, v in outs], sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics if not quiet(k)}), outs


def quiet(k):
    """lock poisoning and the version arithmetic of SAIDs are outside of what the queries decide"""
    return k[0].endswith(("OCABundleTMP as core::convert::From<(&oca_bundle_semantics::state::oca::OCABundle, usize)>>::from",)) or "Connection::execute" in k[0]


def one(r, key, vals, w, what):
    v = only(vals[0], 0) if len(vals) == 1 else None
    r.ob(key, v is not None, w, f"{what}: {[pv(r.F, x)[:300] for x in vals]}")
    return v


def same_bundle(r, key, got, b, w, what):
    F = r.F
    if got is None:
        r.ob(key, False, w, f"{what}: nothing")
        return
    for f in ("said", "capture_base"):
        r.eq(f"{key}:{f}", field(F, got, f), field(F, b, f), w, f"{f} of {what}")
    srt = lambda v: ("t", tuple(sorted(v[1], key=lambda o: repr(field(F, o, "said"))))) if v is not None and v[0] == "t" else v      # their order is not kept
    r.eq(f"{key}:overlays", srt(codec.skip_fields(F, field(F, got, "overlays"))), srt(codec.skip_fields(F, field(F, b, "overlays"))), w, f"overlays of {what}")
    r.eq(f"{key}:json", ("t", (seal.emit(r, got),)), ("t", (seal.emit(r, b),)), w, f"JSON of {what}")


def given_back(r, key, fac, b, hist):
    """what the facade answers about bundle b built by the steps hist"""
    F = r.F
    s = said(r, b)
    w, vs, pn, _ = ask(r, fac, "get_oca_bundle", s, FALSE)
    v = one(r, key + ":bundle:found", vs, w, "a stored bundle must be found")
    r.ob(key + ":bundle:total", not pn, w, f"getting a stored bundle can panic: {pn}")
    if v is not None:
        same_bundle(r, key + ":bundle", field(F, v, "bundle"), b, w, "a stored bundle")
        r.eq(key + ":bundle:dependencies", field(F, v, "dependencies"), vec(), w, "dependencies that were not asked for")
    w, vs, pn, _ = ask(r, fac, "get_oca_bundle_steps", s)
    r.ob(key + ":steps:total", not pn, w, f"getting the steps of a stored bundle can panic: {pn}")
    v = one(r, key + ":steps:found", vs, w, "the history of a stored bundle must be found")
    if v is not None and r.ob(key + ":steps:count", v[0] == "t" and len(v[1]) == len(hist), w, f"{len(hist)} steps lead to the bundle, the history has {len(v[1]) if v[0] == 't' else '?'}"):
        for i, (x, h) in enumerate(zip(v[1], hist)):
            for f in ("parent_said", "command"):
                r.eq(f"{key}:steps:{i}:{f}", field(F, x, f), field(F, h, f), w, f"{f} of step {i}")
            same_bundle(r, f"{key}:steps:{i}:result", field(F, x, "result"), field(F, h, "result"), w, f"the result of step {i}")
    w, vs, pn, _ = ask(r, fac, "get_oca_bundle_ast", s)
    v = one(r, key + ":ast:found", vs, w, "the commands of a stored bundle must be found")
    if v is not None:
        r.eq(key + ":ast:commands", field(F, v, "commands"), vec(*[field(F, h, "command") for h in hist]), w, "the commands a stored bundle was built by")
    objs(r, key, fac, b)


def objs(r, key, fac, b):
    F = r.F
    cb = field(F, b, "capture_base")
    ovs = field(F, b, "overlays")[1]
    ids = [only(field(F, x, "said"), 1) for x in (cb,) + tuple(ovs)]
    w, vs, pn, _ = ask(r, fac, "get_oca_objects", vec(*ids))
    r.ob(key + ":objects:total", not pn, w, f"getting the stored objects of a bundle can panic: {pn}")
    v = one(r, key + ":objects:found", vs, w, "the objects of a stored bundle must be found")
    if v is not None and r.ob(key + ":objects:count", v[0] == "t" and len(v[1]) == len(ids), w, f"{len(ids)} objects were asked for, {len(v[1]) if v[0] == 't' else '?'} are given"):
        for i, (x, o) in enumerate(zip(v[1], (cb,) + tuple(ovs))):
            nm = o[1].split("::")[-1]
            kind = "CaptureBase" if i == 0 else "Overlay"
            ad = F.adts.get(x[1]) if x[0] == "a" else None
            if r.ob(f"{key}:objects:{i}:{nm}:kind", ad is not None and len(x[2]) == 1 and ad["v"][x[2][0][0]]["n"] == kind, w, f"{nm} is given as {pv(F, x)[:100]}"):
                r.eq(f"{key}:objects:{i}:{nm}", x[2][0][1][0], codec.skip_fields(F, o), w, f"{nm} given back")


def stored(r):
    bs, cs = bundles(r), pick(r)
    if not r.ob("store:bundles", all(b is not None for b in bs), "", "no bundles are generated"):
        return
    b1, b2, b3, b4 = bs
    s1, s2, s3, s4 = step(r, None, cs[0], b1), step(r, b1, cs[1], b2), step(r, b2, cs[2], b3), step(r, b3, cs[3], b4)
    f0 = facade(r)
    # one build; then a second one that starts from what the first one gave
    f1, _ = after(r, "store:new", f0, [s1, s2])
    if f1 is None:
        return
    given_back(r, "store:new:1", f1, b1, [s1])
    given_back(r, "store:new:2", f1, b2, [s1, s2])
    unknown(r, "store:new", f1)
    f2, _ = after(r, "store:from", f1, [s3, s4])
    if f2 is None:
        return
    for i, (b, h) in enumerate(((b1, [s1]), (b2, [s1, s2]), (b3, [s1, s2, s3]), (b4, [s1, s2, s3, s4]))):
        given_back(r, f"store:from:{i + 1}", f2, b, h)
    # all in one build: what is between the first and the last bundle is asked for as well
    f2, _ = after(r, "store:all", f0, [s1, s2, s3, s4])
    if f2 is not None:
        for i, (b, h) in enumerate(((b1, [s1]), (b2, [s1, s2]), (b3, [s1, s2, s3]), (b4, [s1, s2, s3, s4]))):
            given_back(r, f"store:all:{i + 1}", f2, b, h)
    sk = [s1, s2, step(r, b2, cs[3], b4)]
    f2, _ = after(r, "store:skip", f0, sk)
    if f2 is not None:
        given_back(r, "store:skip:2", f2, b2, [s1, s2])
    # the same command twice in one history
    twice = [s1, s2, step(r, b2, cs[0], b3)]
    f2, _ = after(r, "store:twice", f0, twice)
    if f2 is not None:
        given_back(r, "store:twice", f2, b3, twice)
    f2, _ = after(r, "store:from", f1, [s3, s4])
    if f2 is None:
        return
    # histories that come back to a bundle already derived
    for nm, ss, want in (("undone", [s1, s2, step(r, b2, cs[2], b1)], [(b1, [s1]), (b2, [s1, s2])]), ("no-effect", [s1, step(r, b1, cs[1], b1)], [(b1, [s1])]),
                         ("undone-twice", [s1, s2, s3, step(r, b3, cs[3], b2), step(r, b2, cs[1], b1)], [(b1, [s1]), (b2, [s1, s2]), (b3, [s1, s2, s3])])):
        f3, _ = after(r, "store:" + nm, f0, ss)
        if f3 is not None:
            for i, (b, h) in enumerate(want):
                steps_are(r, f"store:{nm}:{i + 1}", f3, b, h)
    f4, _ = after(r, "store:rebuilt", f2, [s1, s2])
    if f4 is not None:
        given_back(r, "store:rebuilt", f4, b2, [s1, s2])
    f5, _ = after(r, "store:back", f1, [step(r, b2, cs[2], b1)])
    if f5 is not None:
        steps_are(r, "store:back:1", f5, b1, [s1])
        steps_are(r, "store:back:2", f5, b2, [s1, s2])
    histories(r, cs)


def histories(r, cs):
    """a long history, and drawn builds that continue, repeat and cross one another: each bundle has the history it was first derived by"""
    n = 24 if r.tier == "quick" else 80
    T = codec.types(r)
    at = lambda i: codec.typed(r, ap.attr(r, S(f"!h{i}")), T["text"])
    pool = [bd.gen(r, ap.box(r, [at(i), at(i + 1)]))[0] for i in range(n)]
    if not r.ob("store:long:bundles", all(b is not None for b in pool), "", "no bundles are generated"):
        return
    ss = [step(r, pool[i - 1] if i else None, cs[i % len(cs)], b) for i, b in enumerate(pool)]
    f, _ = after(r, "store:long", facade(r), ss)
    if f is not None:
        for i in (n - 1, n // 2, 1):
            steps_are(r, f"store:long:{i + 1}", f, pool[i], ss[:i + 1])
    for d in range(3 if r.tier == "quick" else 24):
        rnd = random.Random(f"histories{d}")
        f, hist = facade(r), {}
        for b in range(rnd.randint(2, 4)):
            at_ = rnd.choice([None] + sorted(hist))
            ss = []
            for _ in range(rnd.randint(1, 4)):
                to = rnd.randrange(6)
                ss.append(step(r, None if at_ is None else pool[at_], rnd.choice(cs), pool[to]))
                # a bundle built from nothing again keeps the history it has
                hist.setdefault(to, (hist[at_] if at_ is not None else []) + [ss[-1]])
                at_ = to
            f, _ = after(r, f"store:drawn:{d}:{b}", f, ss)
            if f is None:
                break
        for to, h in sorted(hist.items()):
            if f is not None:
                steps_are(r, f"store:drawn:{d}:{to}", f, pool[to], h)


def steps_are(r, key, fac, b, hist):
    F = r.F
    w, vs, pn, _ = ask(r, fac, "get_oca_bundle_steps", said(r, b))
    r.ob(key + ":steps:total", not pn, w, f"getting the steps of a stored bundle can panic: {pn}")
    v = one(r, key + ":steps:found", vs, w, "the history of a stored bundle must be found, also when a command leads back to a bundle derived before")
    if v is not None and r.ob(key + ":steps:count", v[0] == "t" and len(v[1]) == len(hist), w, f"{len(hist)} steps lead to the bundle, the history has {len(v[1]) if v[0] == 't' else '?'}"):
        for i, (x, h) in enumerate(zip(v[1], hist)):
            for f in ("parent_said", "command"):
                r.eq(f"{key}:steps:{i}:{f}", field(F, x, f), field(F, h, f), w, f"{f} of step {i}")
            r.eq(f"{key}:steps:{i}:result", said(r, field(F, x, "result")), said(r, field(F, h, "result")), w, f"the result of step {i}")


def unknown(r, key, fac):
    F = r.F
    u = S("!SAIDunknown")
    for q, args in (("get_oca_bundle", (u, FALSE)), ("get_oca_bundle", (u, TRUE)), ("get_oca_bundle_steps", (u,)), ("get_oca_bundle_ast", (u,)), ("get_oca_bundle_ocafile", (u, FALSE)),
                    ("get_oca_objects", (vec(u),))):
        w, vs, pn, _ = ask(r, fac, q, *args)
        r.ob(f"{key}:unknown:{q}:{len(args)}", vs and not pn and all(only(v, 1) is not None for v in vs), w, f"an identifier that is not stored must be an error: {[pv(F, v)[:150] for v in vs]} {pn}")


def pick(r):
    """commands of different kinds which the JSON form of commands keeps (decided by C10)"""
    F = r.F
    cs = commands(r)
    out, seen = [], set()
    for c in cs:
        doc = seal.emit(r, c)
        if doc is None:
            continue
        _, vs, pn = codec.parse(r, CMD, doc)
        if pn or len(vs) != 1 or only(vs[0], 0) is None or not same_val(only(vs[0], 0), c):
            continue
        k = (pv(F, field(F, c, "kind"))[:12], pv(F, field(F, c, "object_kind"))[:12])
        if k in seen:
            continue
        seen.add(k)
        out.append(c)
    for c in cs:
        if len(out) >= 4:
            break
        if c not in out:
            out.append(c)
    return out


# ------------------------------------------------------------------ relations
def kind_name(r, o):
    """name of the object kind of an explored object, overlays by their type"""
    F = r.F
    k = field(F, o, "object_type")
    ad = F.adts.get(k[1]) if k is not None and k[0] == "a" and len(k[2]) == 1 else None
    if ad is None:
        return pv(F, k)[:80]
    n = ad["v"][k[2][0][0]]["n"]
    if n == "Overlay":
        t = k[2][0][1][0]
        td = F.adts.get(t[1]) if t[0] == "a" and len(t[2]) == 1 else None
        return "Overlay:" + (td["v"][t[2][0][0]]["n"] if td else pv(F, t)[:80])
    return n


def object_kinds(r, b):
    """identifier -> kind name of everything in a bundle"""
    F = r.F
    out = {said(r, b): "OCABundle", only(field(F, field(F, b, "capture_base"), "said"), 1): "CaptureBase"}
    for o in field(F, b, "overlays")[1]:
        t = field(F, o, "overlay_type")
        out[only(field(F, o, "said"), 1)] = "Overlay:" + F.adts[t[1]]["v"][t[2][0][0]]["n"]
    return out


def relations(r, fac, ident, hash_rev=False):
    """(where, base kind, {identifier: kind}, panics) of what explore answers"""
    F = r.F
    w, vs, pn, _ = ask(r, fac, "explore", ident, hash_rev=hash_rev)
    v = only(vs[0], 1) if len(vs) == 1 else None
    if v is None:
        return w, None, [pv(F, x)[:200] for x in vs], pn
    base, rel = field(F, v, "base_object"), field(F, v, "relations")
    if rel is None or rel[0] != "t":
        return w, None, [pv(F, rel)[:200]], pn
    b = (field(F, base, "said"), kind_name(r, base))
    d = [(field(F, o, "said"), kind_name(r, o)) for o in rel[1]]
    return w, b, d, pn


def related(r, key, fac, want, hash_rev=False):
    """want: identifier -> (kind, {identifier: kind})"""
    F = r.F
    for n, (i, (k, rel)) in enumerate(want.items()):
        w, b, d, pn = relations(r, fac, i, hash_rev)
        kk = f"{key}:{n}:{k}"
        r.ob(kk + ":total", not pn, w, f"exploring a stored {k} can panic: {pn}")
        if not r.ob(kk + ":found", b is not None, w, f"exploring a stored {k} must give its relations: {d}"):
            continue
        r.ob(kk + ":base", b == (i, k), w, f"the {k} explored is given as {b[1]} {pv(F, b[0])}")
        r.ob(kk + ":relations", len(d) == len(set(d)) and set(d) == set(rel.items()), w,
             f"a {k} is related to {sorted(set(d) - set(rel.items()), key=repr)} which it should not be, and not to {sorted(set(rel.items()) - set(d), key=repr)}"
             + (" (an object is given twice)" if len(d) != len(set(d)) else ""))


def expected_relations(r, bs):
    """what exploring must give after bundles bs were built"""
    out = {}
    for b in bs:
        ks = object_kinds(r, b)
        bi = said(r, b)
        ci = only(field(r.F, field(r.F, b, "capture_base"), "said"), 1)
        for i, k in ks.items():
            e = out.setdefault(i, (k, {}))[1]
            for j in (bi, ci) + tuple(x for x in ks if i in (bi, ci)):
                if j != i:
                    e[j] = ks[j]
    return out


def explored(r):
    F = r.F
    bs, cs = bundles(r), pick(r)
    b1, b2, b3, b4 = bs
    # two bundles over the same capture base, sharing overlays too
    T = codec.types(r)
    lab = lambda **kw: some(mp(*[(K("lang:" + l), S("!*" + v)) for l, v in kw.items()]))
    mk = lambda **kw: bd.gen(r, ap.box(r, [codec.typed(r, ap.attr(r, sym("a"), **kw), T["text"])]))[0]
    p = mk(labels=lab(eng="l1"))
    q = mk(labels=lab(eng="l1", fra="l2"))
    n = mk(labels=lab(eng="l9"))
    cb = lambda b: only(field(F, field(F, b, "capture_base"), "said"), 1)
    for hr in (False, True):
        h = ":reversed" if hr else ""
        f1, _ = after(r, "explore:one" + h, facade(r), [step(r, None, cs[0], b4)], hash_rev=hr)
        if f1 is None:
            return
        related(r, "explore:one" + h, f1, expected_relations(r, [b4]), hr)
        r.ob(f"explore:shared{h}:set-up", p is not None and q is not None and cb(p) == cb(q), "", "two bundles over one capture base are needed")
        f2, _ = after(r, "explore:two" + h, facade(r), [step(r, None, cs[0], p)], hash_rev=hr)
        f2 = f2 and after(r, "explore:two-more" + h, f2, [step(r, p, cs[1], q)], hash_rev=hr)[0]
        f2 = f2 and after(r, "explore:two-other" + h, f2, [step(r, None, cs[0], b2)], hash_rev=hr)[0]
        f2 = f2 and after(r, "explore:two-third" + h, f2, [step(r, None, cs[0], n)], hash_rev=hr)[0]
        f2 = f2 and after(r, "explore:two-again" + h, f2, [step(r, None, cs[0], p)], hash_rev=hr)[0]
        if f2 is not None:
            related(r, "explore:two" + h, f2, expected_relations(r, [p, q, b2, n]), hr)
            w, b, d, pn = relations(r, f2, S("!SAIDunknown"), hr)
            r.ob("explore:unknown" + h, not pn and b is None and d == ["None"], w, f"an unknown identifier has no relations: {d} {pn}")
    # every kind of object, as it is recorded in a relation
    every_kind(r)


def every_kind(r):
    """an object of every kind, recorded and explored again"""
    F = r.F
    RT, OT = "oca_rs::facade::explore::Relationship", "oca_rs::facade::explore::OCAObject"
    for x in (RT, OT):
        if x not in F.adts:
            raise Missing(f"type {x}")
    to = [f for t, f in F.impls.get(("core::convert::From", "from"), []) if t["s"] == "alloc::vec::Vec<u8>" and f.targs and RT in f.targs[0]["s"]]
    fr = [f for t, f in F.impls.get(("core::convert::From", "from"), []) if t["k"] == "adt" and t["p"] == RT and f.targs and f.targs[0]["s"] == "alloc::vec::Vec<u8>"]
    if len(to) != 1 or len(fr) != 1:
        return              # relations are recorded some other way: what is decided above stands on its own
    OK = OA + "ObjectKind"
    ks = codec.cover(r, {"k": "adt", "p": OK, "s": OK, "a": []}, "k")
    OV = F.adts[OA + "OverlayType"]["v"]
    objs_ = {}
    for k in ks:
        o = struct(F, OT, "", said=S("!SAIDx"), object_type=k)
        objs_.setdefault(kind_name(r, o), k)
    for i, v in enumerate(OV):
        k = next((x for x in ks if F.adts[OK]["v"][x[2][0][0]]["n"] == "Overlay"), None)
        if k is not None:
            j = k[2][0][0]
            objs_["Overlay:" + v["n"]] = ("a", OK, ((j, (("a", OA + "OverlayType", ((i, (K("1.1"),)),)),) + k[2][0][1][1:]),))
    for n, k in sorted(objs_.items()):
        o = struct(F, OT, "", said=S("!SAIDx"), object_type=k)
        o2 = struct(F, OT, "", said=S("!SAIDy"), object_type=k)
        rel = struct(F, RT, "", base_object=o, relations=vec(o, o2))
        bs = [v for _, v in r.run(to[0], [rel])]
        got = [v for b in bs for _, v in r.run(fr[0], [b])]
        pn = [k_ for k_ in r.ip.panics]
        w = r.where(fr[0])
        if r.ob(f"explore:kind:{n}:read", len(got) == 1 and not pn, w, f"a relation to a {n} is not read back: {[pv(F, g)[:100] for g in got]} {pn}"):
            d = field(F, got[0], "relations")
            d = sorted(((field(F, x, "said"), kind_name(r, x)) for x in d[1]), key=repr) if d is not None and d[0] == "t" else None
            r.ob(f"explore:kind:{n}:same", d == [(S("!SAIDx"), n), (S("!SAIDy"), n)], w, f"relations to two {n} are read back as {d}")
        written(r, f"explore:kind:{n}:json", o, k, n)


def written(r, key, o, k, n):
    """the JSON of an object of a relation states its identifier and its kind"""
    F = r.F
    if not any(t["k"] == "adt" and t["p"] == o[1] for t, _ in F.impls.get(("serde::ser::Serialize", "serialize"), [])):
        return
    kind = se.emit(r, k)
    ok = sm.jobj([(K("said"), S("!SAIDx")), (K("object_type"), K("Overlay")), (K("metadata"), sm.jobj([(K("kind"), kind)]))]) if n.startswith("Overlay") else sm.jobj([(K("said"), S("!SAIDx")), (K("object_type"), kind)])
    r.eq(key, se.emit(r, o), ok, "", f"the JSON of a related {n}")
    d = dict(sm.pairs_of(kind) or ())
    name = n.split(":")[-1]
    got = d.get(K("object_kind"))
    r.ob(key + ":kind", got == K(name), "", f"the JSON of a related {n} names the kind {pv(F, got)}")
