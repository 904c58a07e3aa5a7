"""A container of a bundle and its transformations: what is added is what is written and what is read back."""
import random
from base import *
import codec
import seal as se
import sermodels as sm
import bundle as bd
import apply as ap

BU = "oca_rs::facade::bundle::Bundle"
BE = "oca_rs::facade::bundle::BundleElement"
TR = "transformation_file::state::Transformation"
NOV = lambda d: sm.jobj([p for p in sm.pairs_of(d) if p[0] != K("v")]) if d is not None and sm.pairs_of(d) is not None else d


def call(r, key, f, args):
    outs = r.run(f, args)
    w = r.where(f)
    pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
    r.ob(key + ":total", not pn, w, f"{f.name} can panic: {pn}")
    vs = {(canon(v), canon(E(s, "self")) if s.fr.get("E") is not None else None) for s, v in outs}
    if not r.ob(key + ":determined", len(vs) == 1, w, f"{f.name} must do the same on every path: {[pv(r.F, v)[:200] for _, v in outs]}"):
        return None
    return outs[0]


def elements(r):
    """bundles and transformations to put into a container"""
    F = r.F
    bs = [codec.bundle_value(r)]
    for bx in (ap.box(r, [ap.attr(r, sym("only"), attribute_type=some(codec.types(r)["refs"]))]), ap.box(r, [])):
        bs.append(bd.gen(r, bx)[0])
    # the capture base of one before, with other overlays
    bs.append(bd.gen(r, ap.box(r, [ap.attr(r, sym("only"), attribute_type=some(codec.types(r)["refs"]), conformance=some(K("M")))]))[0])
    if None in bs:
        raise Missing("bundles to put into a container")
    ts = codec.cover(r, {"k": "adt", "p": TR, "s": TR, "a": []}, "t")
    ts += codec.cover(r, {"k": "adt", "p": TR, "s": TR, "a": []}, "t2")
    return bs, ts


def written(r, key, enc, v, b, ts, what):
    """the text of a container states exactly what was added to it"""
    F = r.F
    x = call(r, key + ":encode", enc, [Ref(v, "self")])
    w = r.where(enc)
    text_ = only(x[1], 0) if x is not None else None
    d = sm.doc_of(text_)
    if not r.ob(key + ":written", d is not None and d[0] in ("doc", "pretty"), w, f"{what} must be written as one JSON document; found {pv(F, x[1])[:300] if x else None}"):
        return None
    ps = sm.pairs_of(d[1]) or ()
    r.ob(key + ":keys", [k for k, _ in ps] == [K("v"), K("d"), K("m"), K("t")], w, f"{what} must be written with the keys v, d, m, t; found {[pv(F, k) for k, _ in ps]}")
    doc = dict(ps)
    want = NOV(se.emit(r, b)) if b is not None else sm.JNULL
    r.eq(key + ":bundle", NOV(doc.get(K("m"))), want, w, f"the bundle written in {what}")
    got = doc.get(K("t"))
    r.eq(key + ":transformations", ("t", tuple(NOV(y) for y in got[1])) if got is not None and got[0] == "t" else got, ("t", tuple(NOV(se.emit(r, t)) for t in ts)), w, f"the transformations written in {what}")
    _, over = sm.digested(doc.get(K("d")))
    r.eq(key + ":identifier", over, sm.jobj([(k, se.MASK if k == K("d") else y) for k, y in ps]), w, f"what the identifier written in {what} is the digest of")
    hf, _ = sm.digested(doc.get(K("d")))
    r.ob(key + ":hash-function", hf is not None and any("Blake3_256" in y for y in r.ip.labels(hf)), w, f"the identifier of {what} must be a Blake3-256 digest")
    return text_


def container(r):
    F = r.F
    new, add, enc = (r.method(BU, x) for x in ("new", "add", "encode"))
    load = next((f for f in F.fns.values() if f.p == "oca_rs::facade::bundle::load_oca" and f.body), None)
    if load is None:
        raise Missing("oca_rs::facade::bundle::load_oca")
    bs, ts = elements(r)
    rnd = random.Random("container")
    cases = [[], [("b", 3), ("b", 1)], [("b", 1), ("t", 0), ("b", 3)], [("b", 0)], [("t", 0)], [("t", 1), ("t", 0)], [("b", 0), ("b", 1)], [("b", 1), ("t", 0), ("b", 0)], [("t", 0), ("b", 2), ("t", 0)], [("t", 0), ("t", len(ts) // 2), ("t", len(ts) - 1), ("b", 1)]]
    for _ in range(8 if r.tier == "quick" else 80):
        cases.append([("b", rnd.randrange(len(bs))) if rnd.random() < .3 else ("t", rnd.randrange(len(ts))) for _ in range(rnd.randrange(1, 7))])
    for i, case in enumerate(cases):
        key = f"container:{i}"
        what = f"a container given {' '.join(k + str(n) for k, n in case) or 'nothing'}"
        x = call(r, key + ":new", new, [])
        v = x[1] if x is not None else None
        b, have = None, []
        for j, (k, n) in enumerate(case):
            el = bs[n] if k == "b" else ts[n]
            x = call(r, f"{key}:add:{j}", add, [Ref(v, "self"), variant(F, BE, "Structural" if k == "b" else "Transformation", el)])
            v = E(x[0], "self") if x is not None else None
            if v is None:
                break
            b, have = (el, have) if k == "b" else (b, have + [el])
        if v is None:
            continue
        r.eq(key + ":holds:bundle", field(F, v, "structural"), some(b) if b is not None else NONE, r.where(add), f"the bundle in {what}")
        r.eq(key + ":holds:transformations", field(F, v, "transformations"), vec(*have), r.where(add), f"the transformations in {what}")
        t = written(r, key, enc, v, b, have, what)
        if t is None:
            continue
        x = call(r, key + ":load", load, [Ref(t, "source")])
        got = only(x[1], 0) if x is not None else None
        w = r.where(load)
        if not r.ob(key + ":loaded", got is not None, w, f"the text of {what} must be read back: {pv(F, x[1])[:300] if x else None}"):
            continue
        r.eq(key + ":loaded:identifier", field(F, got, "said"), some(dict(sm.pairs_of(sm.doc_of(t)[1]))[K("d")]), w, f"the identifier of {what} read back")
        r.eq(key + ":loaded:transformations", field(F, got, "transformations"), vec(*have), w, f"the transformations of {what} read back")
        gb = only(field(F, got, "structural"), 1)
        if b is None:
            r.eq(key + ":loaded:bundle", field(F, got, "structural"), NONE, w, f"the bundle of {what} read back")
        else:
            for f in ("said", "capture_base"):
                r.eq(f"{key}:loaded:bundle:{f}", field(F, gb, f) if gb is not None else None, field(F, b, f), w, f"{f} of the bundle of {what} read back")
            r.eq(key + ":loaded:bundle:json", se.emit(r, gb) if gb is not None else None, se.emit(r, b), w, f"JSON of the bundle of {what} read back")
        again = call(r, key + ":again", enc, [Ref(got, "self")])
        r.eq(key + ":again", only(again[1], 0) if again is not None else None, t, r.where(enc), f"the text written again for {what}")


def malformed(r):
    """texts that are no container are errors"""
    F = r.F
    bs, ts = elements(r)
    new, add, enc = (r.method(BU, x) for x in ("new", "add", "encode"))
    v = struct(F, BU, "", said=NONE, structural=some(bs[1]), transformations=vec(ts[0]))
    outs = r.run(enc, [Ref(v, "self")])
    d = sm.doc_of(only(outs[0][1], 0)) if len(outs) == 1 else None
    if not r.ob("malformed:container:written", d is not None, r.where(enc), "the JSON of a container is not determined"):
        return
    codec.no_panic(r, "malformed:container", BU, d[1], "a container")
    codec.rejected(r, "reject:container:no-t", BU, codec.without(d[1], "t"), "a container without transformations")
    for k in ("m", "t"):
        for x in (K("?"), K(7), ("t", (K("?"),))):
            codec.rejected(r, f"reject:container:{k}:{pv(F, x)}", BU, codec.without(d[1], k, x), f"a container with {pv(F, x)} as {k}")
    for x in (K("?"), K(7), sm.JNULL, sm.jobj([])):
        codec.rejected(r, f"reject:container:{pv(F, x)}", BU, x, f"{pv(F, x)} as a container")
