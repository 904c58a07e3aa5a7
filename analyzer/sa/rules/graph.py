"""The version graph of the DAG crate: what was derived from what, and the versions built into it."""
import random
from base import *
import apply as ap
import codec
import facade as fc
import record as rc
import seal as se
import sermodels as ser
import steps as sp
import storage as sg

GRAPH = "oca_dag_semantics::versioning::Graph"
BUILD = "oca_dag_semantics::versioning::ocafile::build_oca"


def caller(r):
    def call(key, f, args, disk):
        st = St()
        st.fr["DISK"] = {0: disk}
        outs = r.run(f, args, st=st)
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
        un = sorted(k for k in r.ip.unmodelled if k.startswith("disk:"))
        r.ob(key + ":total", not pn, r.where(f), f"{f.name} can panic: {pn}")
        r.ob(key + ":decided", not un, r.where(f), f"operations outside of what is decided here: {un}")
        ds = {(canon(v), s.fr.get("DISK", {}).get(0)) for s, v in outs}
        if not r.ob(key + ":determined", len(ds) == 1, r.where(f), f"{f.name} must do the same on every path: {[pv(r.F, v)[:200] for _, v in outs]}"):
            return None, disk
        return outs[0][1], outs[0][0].fr["DISK"][0]
    return call


def store(r):
    ts = sorted({t["p"] for t, _ in r.F.impls.get((sg.DAG, "get"), []) if t.get("k") == "adt"})
    if len(ts) != 1:
        raise Missing(f"implementations of {sg.DAG}: {ts}")
    return ts[0], [r.method(ts[0], x, trait=sg.DAG) for x in ("open", "get", "insert")]


@sg.exact_mode
def links(r):
    F = r.F
    call = caller(r)
    t, (op, get, put) = store(r)
    if GRAPH not in F.adts:
        raise Missing(GRAPH)
    add = r.method(GRAPH, "add")
    w = r.where(add)
    names = {"a": S("!SAIDga"), "b": S("!SAIDgb"), "c": S("!SAIDgc"), "d": S("!SAIDgd"), "word": K("dag1"), "other": K("dag2"), "most": K("x" * 255)}
    # one the end, the beginning or another spelling of another
    names.update(end=K("ag1"), start=K("dag"), dot=K("dag1."), upper=K("Dag1"), space=K("dag1 "), wide=K("dag1\u00e9"), none=K(""))
    size = lambda n: len(names[n][1].encode()) if names[n][0] == "k" else 44
    for i in range(10 if r.tier == "quick" else 80):
        rnd = random.Random(f"graph{i}")
        near = sorted(names) if i % 2 else ["dot", "end", "other", "space", "start", "upper", "wide", "word"]
        disk = ("k", (("dir", ("/",)),))
        key = f"graph:{i}"
        s, disk = call(key + ":open", op, [sg.DIR], disk)
        g = struct(F, GRAPH, "", db=s)
        up, down, known = {}, {}, []
        for j in range(7):
            n = rnd.choice(near)
            to = rnd.choice(known) if known and rnd.random() < .8 else rnd.choice(near) if rnd.random() < .3 else None
            x, disk = call(f"{key}:{j}:add", add, [Ref(g, "self"), names[n], some(names[to]) if to else NONE], disk)
            if not r.ob(f"{key}:{j}:add", only(x, 0) is not None, w, f"a version must be added: {pv(F, x)}"):
                break
            up[n] = [K(size(to)), names[to]] if to else []
            if to:
                down.setdefault(to, []).extend([K(size(n)), names[n]])
            known.append(n)
            for m in sorted(names):
                for what, have in (("upscending", up), ("downscending", down)):
                    x, _ = call(f"{key}:{j}:{what}:{m}", get, [Ref(s, "self"), text(names[m], "." + what)], disk)
                    v = only(x, 0)
                    if m not in have:
                        ok = v == NONE
                    else:
                        v = only(v, 1) if v is not None else None
                        ok = v is not None and flatb(v) == flatb(("t", tuple(have[m])))
                    r.ob(f"{key}:{j}:{what}:{m}:value", ok, w, f"{what} of {pv(F, names[m])} must be {[pv(F, y) for y in have[m]] if m in have else None}, found {pv(F, x)}"[:900])
    # names of more than 255 bytes
    disk = ("k", (("dir", ("/",)),))
    s, disk = call("graph:long:open", op, [sg.DIR], disk)
    g = struct(F, GRAPH, "", db=s)
    for what, n, to in (("new", K("y" * 256), some(names["a"])), ("to", names["a"], some(K("y" * 256)))):
        x, _ = call(f"graph:long:{what}", add, [Ref(g, "self"), n, to], disk)
        r.ob(f"graph:long:{what}", only(x, 1) is not None, w, f"a name whose length cannot be kept must be an error: {pv(F, x)[:200]}")
    closed = struct(F, GRAPH, "", db=struct(F, t, "", db=NONE))
    outs = r.run(add, [Ref(closed, "self"), names["a"], some(names["b"])])
    r.ob("graph:closed", all(only(v, 1) is not None for _, v in outs) and not r.ip.panics, w, "a storage that could not be opened is an error")


def flatb(v):
    """the bytes of a value: numbers, and texts by what they are"""
    b = rc.raw(v)
    if b is None:
        return None
    out = []
    for x in b:
        if x[0] == "k" and isinstance(x[1], str):
            out += [K(y) for y in x[1].encode()]
        else:
            out.append(x)
    return out


def written(r, b):
    """the bytes a bundle is encoded to"""
    fs = [f for t, f in r.F.impls.get(("said::version::Encode", "encode"), []) if t.get("k") == "adt" and t["p"] == b[1]]
    if len(fs) != 1:
        raise Missing("Encode of the bundle")
    outs = r.run(fs[0], [Ref(b, "self"), S("!code"), S("!format")])
    v = only(outs[0][1], 0) if len(outs) == 1 else None
    return rc.raw(v) if v is not None else None


@sg.exact_mode
def built(r):
    F = r.F
    call = caller(r)
    t, (op, get, put) = store(r)
    f = r.fn(BUILD)
    w = r.where(f)
    gs, bs = [c for _, c in sp.good(r)], [c for _, c in sp.bad(r)]
    # metadata of a name that is none of the overlay's own keys: see C09 about the others
    gs[4] = ap.command(r, "Add", ap.overlay(r, "Meta", ap.content(r, NONE, some(mp((K("lang"), ap.val(r, K("fr"))), (K("topic"), ap.val(r, S("!*m"))))))))
    e0 = sp.expect(r, None, gs[:2])
    if not r.ob("versions:base", e0 is not None and e0[0], w, "no base bundle can be built"):
        return
    long = ap.command(r, "Add", ap.overlay(r, "Unit", ap.content(r, some(mp((sym("a"), ap.val(r, K("u" * 300))))))))
    undo = ap.command(r, "Remove", field(F, gs[2], "object_kind"))
    cases = [("one", gs[:1]), ("all", gs), ("twice", gs[:2] + gs[1:2]), ("undo", [gs[0], gs[2], undo]), ("undo-again", [gs[0], gs[2], undo, gs[2], gs[1]]), ("bare", [gs[4], gs[0], gs[1]]), ("long", [gs[0], long]), ("nothing", []),
             ("error-first", [bs[0]] + gs[:2]), ("error-last", gs[:2] + [bs[0]]), ("error-between", [gs[0], gs[1], bs[1], gs[2]])]
    for i in range(4 if r.tier == "quick" else 40):
        rnd = random.Random(f"versions{i}")
        cases.append((f"drawn:{i}", gs[:1] + [rnd.choice(gs[1:] + [undo]) for _ in range(rnd.randint(2, 6))]))
    for name, cmds in cases:
        key = "versions:" + name
        disk = ("k", (("dir", ("/",)),))
        s, disk = call(key + ":open", op, [sg.DIR], disk)
        x, after = call(key, f, [s, ("t", tuple(cmds))], disk)
        ex = sp.expect(r, None, cmds)
        if not r.ob(key + ":expectation", ex is not None, w, "applying the commands one by one is not determined"):
            continue
        sts, errs = ex
        if errs or not cmds:
            r.ob(key + ":error", only(x, 1) is not None, w, f"commands that cannot be applied, and none at all, must be an error: {pv(F, x)[:300]}")
            continue
        b = only(x, 0)
        if r.ob(key + ":built", b is not None, w, f"the commands must build: {pv(F, x)[:300]}"):
            r.eq(key + ":bundle", b, sts[-1][2], w, "the bundle after the last command")
        kept(r, call, key, get, s, after, sts, w)
    continued(r, call, f, gs, bs, op, get)


def kept(r, call, key, get, s, after, sts, w):
    """the record of every version, and the version"""
    F = r.F
    first, last = {}, {}
    for p, c, bb in sts:
        sd = fc.said(r, bb)
        first.setdefault(sd, (p, c))
        last[sd] = bb
    for i, (sd, (p, c)) in enumerate(first.items()):
        x, _ = call(f"{key}:{i}:operation", get, [Ref(s, "self"), text("oca.", sd, ".operation")], after)
        v = only(only(x, 0), 1) if only(x, 0) is not None else None
        got = rc.raw(v) if v is not None else None
        want = [K(44), p] if p is not None else [K(0)]
        d = ser.doc_of(got[-1]) if got else None
        r.ob(f"{key}:{i}:operation:value", got is not None and got[:-1] == want and d is not None and d[0] in ("doc", "pretty") and d[1] == se.emit(r, c), w, f"the record of version {i} must be its parent {pv(F, p)} and its command, found {[pv(F, y)[:200] for y in got or []]}")
        x, _ = call(f"{key}:{i}:version", get, [Ref(s, "self"), text("oca.", sd)], after)
        v = only(only(x, 0), 1) if only(x, 0) is not None else None
        g = rc.raw(v) if v is not None else None
        r.ob(f"{key}:{i}:version:value", g is not None and g == written(r, last[sd]), w, f"version {i} must be stored as it is written: {pv(F, x)[:400]}")


def continued(r, call, f, gs, bs, op, get):
    """a build that continues a stored version"""
    F = r.F
    w = r.where(f)
    OA = "oca_ast_semantics::ast::"
    frm = lambda k, v: ap.command(r, "From", variant(F, OA + "ObjectKind", "OCABundle", struct(F, OA + "BundleContent", "", said=variant(F, OA + "ReferenceAttrType", "Reference", variant(F, OA + "RefValue", k, v)))))
    for n in (1, 3, 6):
        key = f"versions:from:{n}"
        disk = ("k", (("dir", ("/",)),))
        s, disk = call(key + ":open", op, [sg.DIR], disk)
        x, disk = call(key + ":base", f, [s, ("t", tuple(gs[:n]))], disk)
        base = only(x, 0)
        if not r.ob(key + ":base:built", base is not None, w, f"the base must build: {pv(F, x)[:300]}"):
            continue
        sd = fc.said(r, base)
        before = sp.expect(r, None, gs[:n])[0]
        for what, cmds in (("more", gs[n:n + 2]), ("wrong", [gs[n], bs[0]]), ("only", [])):
            k = f"{key}:{what}"
            x, after = call(k, f, [s, ("t", (frm("Said", sd),) + tuple(cmds))], disk)
            ex = sp.expect(r, base, cmds)
            if not r.ob(k + ":expectation", ex is not None, w, "applying the commands one by one is not determined"):
                continue
            if ex[1]:
                r.ob(k + ":error", only(x, 1) is not None, w, f"a command that cannot be applied must be an error: {pv(F, x)[:300]}")
                continue
            b = only(x, 0)
            if r.ob(k + ":built", b is not None, w, f"the commands must build: {pv(F, x)[:300]}"):
                r.eq(k + ":bundle", b, ex[0][-1][2] if ex[0] else base, w, "the bundle after the last command")
            kept(r, call, k, get, s, after, list(before) + list(ex[0]), w)
        for what, c in (("unknown", frm("Said", S("!SAIDother"))), ("name", frm("Name", S("!name")))):
            x, after = call(f"{key}:{what}", f, [s, ("t", (c, gs[n]))], disk)
            r.ob(f"{key}:{what}:error", only(x, 1) is not None, w, f"a base that is not stored must be an error: {pv(F, x)[:300]}")
            r.ob(f"{key}:{what}:nothing", after == disk, w, "nothing is stored by a build that is an error from the start")
