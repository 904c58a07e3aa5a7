"""The record of a build: which command made which version of the capture base, of each overlay and of the bundle."""
import random
from base import *
import apply as ap
import bundle as bd
import codec
import facade as fc
import mixed as mx
import seal as se
import sermodels as sm
import steps

RM, CM, BM, CBM, OM = ("oca_dag_semantics::" + x for x in ("ResultModel", "CommandModel", "OCABundleModel", "CaptureBaseModel", "OverlayModel"))
MORE = ("Meta",)


def vname(F, v):
    return F.adts[v[1]]["v"][v[2][0][0]]["n"] if v is not None and v[0] == "a" and len(v[2]) == 1 else None


def subject(r, o):
    """the kind of an overlay, and the language, target or frame it is for"""
    F = r.F
    ns = [f["n"] for f in F.adts[o[1]]["v"][0]["f"]]
    k = vname(F, field(F, o, "overlay_type"))
    for f in ("language", "target_bundle"):
        if f in ns:
            return k, field(F, o, f)
    if o[1].split("::")[-1] == bd.FRAMING[0]:
        return k, mget(field(F, o, "metadata"), K("frame_id"))
    return k, None


def versioned(r, c, ver):
    """the command with the version that overlays are made with"""
    F = r.F
    ok = field(F, c, "object_kind")
    i, (ot, ct) = ok[2][0]
    j = ot[2][0][0]
    return codec.setf(F, c, "object_kind", ("a", ok[1], ((i, (("a", ot[1], ((j, (ver[F.adts[ot[1]]["v"][j]["n"]],)),)), ct)),)))


def versions(r):
    F = r.F
    out = {}
    for p in codec.kinds(r):
        v = codec.overlay_variant(r, p)
        if v is not None:
            out[vname(F, v)] = v[2][0][1][0]
    return out


def draw(r, i, ver):
    """a list of (command, subject or None) that can be applied one after the other"""
    rnd = random.Random(f"models{i}")
    T = [t for _, t in sorted(codec.types(r).items())]
    at = lambda ns: some(mp(*[(sym(n), rnd.choice(T)) for n in ns]))
    names = list("ab")
    out = [(ap.command(r, "Add", ap.capture(r, attributes=at(names), properties=NONE)), None)]
    kinds = list(mx.FIELD) + list(MORE)
    some_ = mx.some_of(rnd, kinds) if i % 2 else ["Link", "AttributeFraming", "Label", "Meta", "Format"]
    # one list states every kind of overlay, and several in each language
    todo = kinds + ["Label", "Meta", "Entry", "Link", "AttributeFraming"] if i == 3 else []
    for _ in range(rnd.randint(4, 8) + len(todo)):
        x = 1 if todo else rnd.random()
        if x < .15:
            n = "cdefgh"[len(names) - 2] if len(names) < 7 else "a"
            if n not in names:
                names.append(n)
            c, s = ap.command(r, "Add", ap.capture(r, attributes=at([n]))), None
        elif x < .2 and len(names) > 1:
            n = names.pop()
            c, s = ap.command(r, "Remove", ap.capture(r, attributes=at([n]))), None
        elif x < .3 and len(out) > 1:
            c, s = rnd.choice(out[1:])
            if not fits(r, c, names):
                continue
        else:
            ov = todo.pop() if todo else rnd.choice(some_)
            if ov == "Meta":
                l = rnd.choice(mx.LANGS)
                c = ap.command(r, "Add", ap.overlay(r, "Meta", ap.content(r, NONE, some(mp((K("lang"), ap.val(r, K(mx.SHORT[l[1]]))), (S(f"!k{rnd.randrange(2)}"), ap.val(r, S(f"!*m{rnd.randrange(3)}"))))))))
                s = ("Meta", l)
            else:
                c, _ = mx.command(r, rnd, ov, mx.some_of(rnd, names))
                ct = field(r.F, c, "object_kind")[2][0][1][1]
                ps = dict(only(field(r.F, ct, "properties"), 1)[1]) if only(field(r.F, ct, "properties"), 1) is not None else {}
                k = next((ps[K(n)] for n in ("lang", "target", "id") if K(n) in ps), None)
                k = k and k[2][0][1][0]
                if k is not None and k[0] == "a":
                    k = k[2][0][1][0]
                s = (ov, next((l for l in mx.LANGS if mx.SHORT[l[1]] == k[1]), k) if k is not None and k[0] == "k" else k)
            c = versioned(r, c, ver)
        out.append((c, s))
    return out


def fits(r, c, names):
    return all(n in names for n in re_names(field(r.F, c, "object_kind")))


def re_names(ok):
    """the attributes a command names"""
    at = ok[2][0][1][-1]
    out = []
    for fs in at[2][0][1]:
        m = only(fs, 1) if fs is not None and fs[0] == "a" else None
        if m is not None and m[0] == "m":
            out += [next(iter(k[1]))[1:] for k, _ in m[1] if k[0] == "s" and len(next(iter(k[1]))) == 2]
    return out


def expected(r, cmds, bs, base=None):
    """what the record of each step must say"""
    F = r.F
    said = lambda b: fc.said(r, b)
    cb = lambda b: only(field(F, field(F, b, "capture_base"), "said"), 1)
    opt = lambda v: some(v) if v is not None else NONE
    pb, pc, po, out = base and said(base), None, {}, []
    for (c, s), b in zip(cmds, bs):
        j = se.emit(r, c)
        e = {"json": j, "oca_bundle": {"oca_bundle_said": said(b), "parent": opt(pb), "capture_base_said": cb(b), "overlays_said": vec(*[only(field(F, o, "said"), 1) for o in field(F, b, "overlays")[1]])}, "capture_base": None, "overlay": None}
        pb = said(b)
        if s is None:
            e["capture_base"] = {"capture_base_said": cb(b), "parent": opt(pc)}
            pc = cb(b)
        else:
            hit = [o for o in field(F, b, "overlays")[1] if subject(r, o) == s]
            if len(hit) > 1:
                return None
            if hit:
                x = only(field(F, hit[0], "said"), 1)
                e["overlay"] = {"overlay_said": x, "parent": opt(po.get(s))}
                po[s] = x
        out.append(e)
    return out


def fields(F, v):
    return dict(zip([x["n"] for x in F.adts[v[1]]["v"][0]["f"]], v[2][0][1])) if v is not None and v[0] == "a" and len(v[2]) == 1 else {}


def recorded(r):
    F = r.F
    for x in (RM, CM, BM, CBM, OM):
        if x not in F.adts:
            raise Missing(f"type {x}")
    f = r.fn("build_core_db_model", crate="oca_dag_semantics")
    w = r.where(f)
    ver = versions(r)
    n = 0
    for i in range(14 if r.tier == "quick" else 100):
        cmds = draw(r, i, ver)
        bx, bs = None, []
        for c, _ in cmds:
            bx, _ = steps.apply_one(r, bx, c)
            b = bd.gen(r, bx)[0] if bx is not None else None
            if b is None:
                break
            bs.append(b)
        key = f"models:{i}"
        if not r.ob(key + ":set-up", len(bs) == len(cmds), w, f"command {len(bs)} cannot be applied: {pv(F, cmds[min(len(bs), len(cmds) - 1)][0])[:300]}"):
            continue
        # in one build, or in two of which the second continues the first
        at = len(cmds) if i % 3 == 0 else random.Random(i).randrange(1, len(cmds))
        builds = []
        for part, (lo, hi) in enumerate(((0, at), (at, len(cmds)))):
            if lo == hi:
                continue
            base = bs[lo - 1] if lo else None
            ex = expected(r, cmds[lo:hi], bs[lo:hi], base)
            if not r.ob(f"{key}:{part}:set-up", ex is not None, w, "two overlays of one kind for one language, target or frame"):
                break
            st = [fc.step(r, bs[j - 1] if j else None, cmds[j][0], bs[j]) for j in range(lo, hi)]
            k = modelled(r, f"{key}:{part}", f, st, cmds[lo:hi], ex)
            if k is None:
                break
            n += k
            builds.append((st, ex))
        else:
            if i < (6 if r.tier == "quick" else 40):
                stored(r, key, builds)
    r.ob("models:skeleton", n > 60, w, f"{n} records compared")


def modelled(r, key, f, st, cmds, ex):
    F = r.F
    w = r.where(f)
    n = 0
    outs = r.run(f, [Ref(fc.build_value(r, st), "build")])
    pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
    r.ob(key + ":total", not pn, w, f"recording a build can panic: {pn}")
    got = outs[0][1] if outs and all(same_val(v, outs[0][1]) for _, v in outs) else None
    if not r.ob(key + ":steps", got is not None and got[0] == "t" and len(got[1]) == len(cmds), w, f"{len(cmds)} steps must give one record each: {[pv(F, v)[:300] for _, v in outs]}"):
        return None
    for j, (m, e) in enumerate(zip(got[1], ex)):
        kj = f"{key}:{j}"
        what = f"of step {j} ({pv(F, cmds[j][0])[:120]})"
        cm = fields(F, only(field(F, m, "command"), 1))
        d = sm.doc_of(cm.get("json"))
        r.ob(kj + ":command", d is not None and d[1] == e["json"], w, f"the command {what}: {pv(F, cm.get('json'))[:300]}")
        e["digest"] = cm.get("digest")
        hf, over = sm.digested(cm.get("digest"))
        dd = sm.doc_of(over) if over is not None else None
        if over is not None and d is not None:
            # as it is written, byte for byte
            of_ = sm.doc_of(sm.doc_of(cm.get("digest"))[1][1][1])
            r.ob(kj + ":command:digest:text", of_ is not None and of_[0] == d[0], w, f"the digest of the command {what} must be that of its JSON as it is recorded, not of another layout of it")
        r.ob(kj + ":command:digest", over is not None and (over == e["json"] or dd is not None and dd[1] == e["json"]), w, f"the digest of the command {what} must be that of its JSON: {pv(F, cm.get('digest'))[:300]}")
        r.ob(kj + ":command:hash", hf is not None and any(y == "!hash-E" or "Blake3_256" in y for y in r.ip.labels(hf)), w, f"the digest of the command {what} must be Blake3-256: {pv(F, hf)}")
        for k in ("oca_bundle", "capture_base", "overlay"):
            g = field(F, m, k)
            if e[k] is None:
                r.eq(f"{kj}:{k}", g, NONE, w, f"a record for {k} {what}, which makes none")
                continue
            n += 1
            g = only(g, 1)
            if not r.ob(f"{kj}:{k}:recorded", g is not None, w, f"the {k} {what} must be recorded: {pv(F, field(F, m, k))[:200]}"):
                continue
            for y, v in e[k].items():
                r.eq(f"{kj}:{k}:{y}", field(F, g, y), v, w, f"{y} of {k} {what}")
            if k != "oca_bundle":
                r.eq(f"{kj}:{k}:command", field(F, g, "command_digest"), cm.get("digest"), w, f"the command {k} {what} is made by")
    return n


def raw(v):
    """the bytes stored, as numbers and texts"""
    if v is None:
        return None
    if v[0] == "t":
        out = []
        for x in v[1]:
            y = raw(x)
            if y is None:
                return None
            out += y
        return out
    if v[0] == "a" and v[1].endswith("::Text"):
        return raw(v[2][0][1][0])
    if v[0] == "cat":
        return raw(("t", v[1]))
    return [v] if v[0] in ("k", "s") else None


def stored(r, key, builds):
    """the facade keeps every record under the identifier of what it is about"""
    F = r.F
    fac = fc.facade(r)
    for i, (st, _) in enumerate(builds):
        fac = fac and fc.after(r, f"{key}:stored:{i}:after", fac, st)[0]
    f = fc.meth(r, "build")
    w = r.where(f)
    if fac is None:
        return
    gets = [g for t, g in F.impls.get(("oca_rs::data_storage::DataStorage", "get_all"), []) if t["k"] == "adt" and t["p"] == fc.MEM]
    if len(gets) != 1:
        raise Missing("DataStorage::get_all of InMemoryDataStorage")
    NS = "oca_rs::data_storage::Namespace"
    outs = r.run(gets[0], [Ref(field(F, fac, "db"), "self"), variant(F, NS, "CoreModel")])
    v = only(outs[0][1], 0) if len(outs) == 1 else None
    if not r.ob(key + ":stored:known", v is not None and v[0] == "m", w, f"what is recorded is not determined: {[pv(F, x)[:300] for _, x in outs]}"):
        return
    of = lambda s: [K(44), s]
    opt = lambda o: of(only(o, 1)) if only(o, 1) is not None else [K(0)]
    want = {}
    for e in (e for _, ex in builds for e in ex):
        dg = e["digest"]
        want[dg] = [("doc", e["json"])]
        for k, i in (("capture_base", "capture_base_said"), ("overlay", "overlay_said")):
            if e[k] is not None:
                want.setdefault(e[k][i], opt(e[k]["parent"]) + of(dg))
        b = e["oca_bundle"]
        want.setdefault(b["oca_bundle_said"], opt(b["parent"]) + of(b["capture_base_said"]) + [y for o in b["overlays_said"][1] for y in of(o)])
    got = {}
    for k, x in v[1]:
        b = raw(x)
        k = only_key(k)
        got[k] = [("doc", sm.doc_of(b[0])[1])] if b is not None and len(b) == 1 and sm.doc_of(b[0]) is not None and sm.doc_of(b[0])[0] == "doc" else b
    for i, (k, x) in enumerate(want.items()):
        r.ob(f"{key}:stored:{i}", got.get(k) == x, w, f"under {pv(F, k)} is kept {got.get(k)}, the record is {x}"[:900])
    r.ob(key + ":stored:nothing-else", set(got) == set(want), w, f"records kept that no step made: {[pv(F, k) for k in set(got) - set(want)][:4]}")


def only_key(k):
    """the identifier in the key of a record"""
    return k[1][1] if k[0] == "cat" and len(k[1]) == 2 and k[1][0] == K("core_model.") else k
