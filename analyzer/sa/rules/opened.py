"""Opening a facade: it works on the storages it is given, each for its purpose, and on the search database at its place."""
from base import *
import facade as fc
import storage as sg
import storemodels as sm

CFG = "oca_rs::repositories::SQLiteConfig"


def open_(r, key, a, b, path, disk):
    """Facade::new on the storages a and b -> (facade, disk)"""
    F = r.F
    f = r.method(fc.FC, "new")
    w = r.where(f)
    mk = r.method(CFG, "build")
    outs = r.run(mk, [])
    v = outs[0][1] if len(outs) == 1 else None
    for p in () if path is None else path if isinstance(path[0], tuple) else (path,):
        if v is not None:
            outs = r.run(r.method(CFG + "Builder", "path"), [v, p])
            v = outs[0][1] if len(outs) == 1 else None
    outs = r.run(r.method(CFG + "Builder", "finalize"), [Ref(v, "self")]) if v is not None else []
    cfg = only(outs[0][1], 0) if len(outs) == 1 else None
    if not r.ob(key + ":config", cfg is not None and not r.ip.panics, r.where(mk), f"a configuration must be given: {[pv(F, x) for _, x in outs]}"):
        return None, disk
    outs = r.run(r.method(CFG + "Builder", "unwrap"), [Ref(v, "self")])
    r.ob(key + ":config:unwrap", len(outs) == 1 and outs[0][1] == cfg and not r.ip.panics, r.where(mk), "unwrap must give the configuration")
    st = St()
    st.fr["DISK"] = {0: disk}
    outs = r.run(f, [a, b, cfg], st=st)
    pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
    un = sorted(k for k in r.ip.unmodelled if k.startswith("disk:"))
    r.ob(key + ":total", not pn, w, f"opening can panic: {pn}")
    r.ob(key + ":decided", not un, w, f"operations outside of what is decided here: {un}")
    ds = {(canon(v), s.fr.get("DISK", {}).get(0)) for s, v in outs}
    if not r.ob(key + ":determined", len(ds) == 1, w, f"opening must do the same on every path: {[pv(F, v)[:300] for _, v in outs]}"):
        return None, disk
    return outs[0][1], outs[0][0].fr["DISK"][0]


def connection(F, v):
    """the database a facade works on"""
    seen = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], tuple) and x[1] and x[1][0] == "sql":
                seen.append(x[1][1])
                return
            for y in x:
                go(y)
    go(canon(v))
    return seen


@sg.exact_mode
def opened(r):
    F = r.F
    for x in (fc.FC, fc.MEM, CFG):
        if x not in F.adts:
            raise Missing(f"type {x}")
    f = r.method(fc.FC, "new")
    w = r.where(f)
    b1, b2 = fc.bundles(r)[1:3]
    cs = fc.pick(r)
    fac, _ = fc.after(r, "open:built", fc.facade(r), [fc.step(r, None, cs[0], b1), fc.step(r, b1, cs[1], b2)])
    if not r.ob("open:set-up", fac is not None, w, "nothing is built"):
        return
    da, db = field(F, fac, "db"), field(F, fac, "db_cache")
    r.ob("open:set-up:differ", da != db, w, "the two storages hold the same")
    work = sm.comps(K("/work"))
    have = ("k", tuple(("dir", work[:i]) for i in range(1, len(work) + 1)))
    places = [("there", K("/work")), ("missing", K("/work/data")), ("nested", K("/work/a/b/c")), ("named", text("/work/", S("!place"))), ("memory", None)]
    for name, p in places:
        key = "open:" + name
        v1, d1 = open_(r, key + ":first", da, db, p, have)
        if v1 is None:
            continue
        # what has been written since is marked, so a file that is begun anew is seen
        d1 = ("k", tuple(x + ("data",) if x[0] == "sql" else x for x in d1[1]))
        v2, d2 = open_(r, key + ":again", da, db, p, d1)
        c = connection(F, v1)
        if p is None:
            r.ob(key + ":database", c == ["memory"], w, f"without a path the search data is kept in memory: {c}")
            r.ob(key + ":disk", d1 == have, w, f"without a path nothing is written: {d1}")
        else:
            at = sm.comps(p)
            r.ob(key + ":database", len(c) == 1 and isinstance(c[0], tuple) and c[0][:len(at)] == at and len(c[0]) == len(at) + 1, w, f"the search data must be a file at the place configured: {c}")
            r.ob(key + ":disk", all(x in have[1] or x[0] == "dir" and at[:len(x[1])] == x[1] or x[0] == "sql" and x[1][:len(at)] == at for x in d1[1]), w, f"files outside of the place configured: {d1}")
        r.ob(key + ":same", v2 is not None and canon(v1) == canon(v2) and d1 == d2, w, "opened again with the same storages and configuration it must be the same facade")
        # it answers as the facade did whose storages these are
        for what, v in (("first", v1), ("again", v2)):
            if v is None:
                continue
            for n in ("db", "db_cache"):
                r.eq(f"{key}:{what}:{n}", field(F, v, n), field(F, fac, n), w, f"the storage `{n}`")
            fc.given_back(r, f"{key}:{what}", v, b2, [fc.step(r, None, cs[0], b1), fc.step(r, b1, cs[1], b2)])
        g = r.method(fc.FC, "storage")
        outs = r.run(g, [Ref(v1, "self")])
        got = outs[0][1] if len(outs) == 1 else None
        got = r.ip.deref(outs[0][0], got) if got is not None else None
        r.ob(key + ":storage", got is not None and canon(got) == canon(field(F, v1, "db_cache")), r.where(g), f"the storage given to validation must be the one that bundles are kept in: {pv(F, got)[:200]}")
    # the place configured last is the one that counts
    v3, _ = open_(r, "open:twice", da, db, (K("/work/first"), K("/work/data")), have)
    v4, _ = open_(r, "open:once", da, db, K("/work/data"), have)
    r.ob("open:twice:place", v3 is not None and v4 is not None and connection(F, v3) == connection(F, v4), w, "a place configured twice is the one given last")
    # different places are different databases
    ds = [connection(F, open_(r, f"open:apart:{i}", da, db, p, have)[0]) for i, p in enumerate((K("/work"), K("/work/data"), K("/work/other")))]
    r.ob("open:apart", len({repr(d) for d in ds}) == 3, w, f"different places must have different search data: {ds}")
