"""What the facade lists and finds among the bundles built: the SQL statements in the source are evaluated over symbolic rows."""
from base import *
import codec
import facade as fc
import names as nm
import ocafile as of
import seal as se
import sermodels as sm
import sqlmodels
from names import T, said

FILES = [
    ("one", "ADD ATTRIBUTE {a}=Text\nADD META en PROPS name=\"{n} ({w}\" description=\"{d} [{e}*\"\nADD META fr PROPS name=\"{m}\" description=\"{w}, {w}\"\n"),
    ("two", "ADD ATTRIBUTE {b}=Numeric\nADD META pl PROPS name=\"{k}\" description=\"{w} {x}+\"\n"),
    ("same-base", "ADD ATTRIBUTE {a}=Text\nADD LABEL en ATTRS {a}=\"{w}\"\n"),
    ("three", "ADD ATTRIBUTE {c}=Text\nADD META en PROPS description=\"{y}{w}\\\\{z}\"\nADD META pl PROPS name=\"{o}\" title=\"{t}\"\n"),
    ("four", "ADD ATTRIBUTE {f}=Text\nADD META de PROPS description=\"{v} {w}\"\n"),
]
# word searched for -> bundles that have it
WORDS = [("{w}", ["one", "two", "three", "four"]), ("{v}", ["four"]), ("{n}", ["one"]), ("{e}", ["one"]), ("{m}", ["one"]), ("{x}", ["two"]), ("{o}", ["three"]), ("{q}", []), ("{t}", []), ("eng", []), ("{a}", [])]
HUGE = 2 ** 64 - 1


def call(r, key, world, name, *args, quiet=True):
    """one call of the facade in a world (facade, database) -> (world, value) or None"""
    f = fc.meth(r, name)
    w = r.where(f)
    fac, db = world
    st = St()
    st.fr["DB"] = {0: db}
    outs = r.run(f, [Ref(fac, "self")] + list(args), parts=300, st=st)
    pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics if not fc.quiet(k)})
    r.ob(key + ":total", not pn, w, f"{name} can panic: {pn}")
    un = sorted(k for k in r.ip.unmodelled if k.startswith("SQL"))
    r.ob(key + ":decided", not un, w, f"statements outside of the SQL evaluated here: {un}")
    es = [((E(s, "self"), s.fr.get("DB", {}).get(0)), v) for s, v in outs]
    good = bool(es) and all(same_val(v, es[0][1]) and same_val(e[0], es[0][0][0]) and e[1] == es[0][0][1] for e, v in es)
    if not r.ob(key + ":determined", good, w, f"{name} must answer the same on every path: {[pv(r.F, v)[:200] for _, v in es]}"):
        return None
    return es[0]


def world(r):
    sqlmodels.EXACT = True
    return fc.facade(r), ("k", ())


def build(r, key, w, t):
    x = call(r, key, w, "build_from_ocafile", t)
    if x is None:
        return None, None
    b = only(x[1], 0)
    r.ob(key + ":built", b is not None, r.where(fc.meth(r, "build_from_ocafile")), f"must be built: {pv(r.F, x[1])[:300]}")
    return x[0], b


def filled(r):
    """a world with the bundles of FILES, one of them built twice -> (world, {name: bundle})"""
    w, bs = world(r), {}
    for k, t in FILES:
        w, bs[k] = build(r, "build:" + k, w, T(t))
        if bs[k] is None:
            return None, None
    w, b = build(r, "build:again", w, T(FILES[0][1]))
    if b is None:
        return None, None
    return w, bs


def exactly(fn):
    def g(r):
        try:
            fn(r)
        finally:
            sqlmodels.EXACT, sqlmodels.SNIPPET, sqlmodels.GROUP = False, "whole", "first"
    g.__name__ = fn.__name__
    return g


def written(F, p):
    return any(t["k"] == "adt" and t["p"] == p for t, _ in F.impls.get(("serde::ser::Serialize", "serialize"), []))


def records(r, key, w, name, limit, page):
    F = r.F
    x = call(r, key, w, name, K(limit), K(page))
    wh = r.where(fc.meth(r, name))
    v = only(x[1], 0) if x is not None else None
    if not r.ob(key + ":found", v is not None, wh, f"must be listed: {pv(F, x[1])[:300] if x else None}"):
        return None, None, None
    rs = field(F, v, "records")
    md = field(F, v, "metadata")
    if not r.ob(key + ":records", rs is not None and rs[0] == "t", wh, f"the records are not determined: {pv(F, rs)[:200]}"):
        return None, None, None
    if written(F, v[1]) and page == 1 and limit in (2, 10):
        want = sm.jobj([(K("records"), ("t", tuple(se.emit(r, x) for x in rs[1]))), (K("metadata"), sm.jobj([(K("total"), field(F, md, "total")), (K("page"), field(F, md, "page"))]))])
        r.eq(key + ":json", se.emit(r, v), want, wh, "the JSON of a list of bundles")
    return list(rs[1]), field(F, md, "total"), field(F, md, "page")


@exactly
def listing(r):
    F = r.F
    for empty in ("fetch_all_oca_bundle", "fetch_all_capture_base"):
        rs, total, _ = records(r, f"list:empty:{empty}", world(r), empty, 10, 1)
        if rs is not None:
            r.ob(f"list:empty:{empty}:none", rs == [] and total == K(0), r.where(fc.meth(r, empty)), f"nothing is listed before anything is built: {len(rs)} {total}")
    w, bs = filled(r)
    if bs is None:
        return
    base = lambda b: field(F, b, "capture_base")
    kinds = [("fetch_all_oca_bundle", list(bs.values()), "an OCA bundle")]
    cbs = []
    for b in bs.values():
        if not any(same_val(base(b), c) for c in cbs):
            cbs.append(base(b))
    kinds.append(("fetch_all_capture_base", cbs, "a capture base"))
    for name, want, what in kinds:
        wh = r.where(fc.meth(r, name))
        n = len(want)
        r.ob(f"list:{name}:skeleton", n >= 3, wh, f"{n} different objects built")
        ident = lambda x: only(field(F, x, "said"), 1)
        for limit in (1, 2, n, n + 1, HUGE):
            seen = []
            for page in range(1, n + 3):
                key = f"list:{name}:{limit if limit < HUGE else 'max'}:{page}"
                rs, total, pg = records(r, key, w, name, limit, page)
                if rs is None:
                    return
                r.ob(key + ":total-number", total == K(n), wh, f"the total must be {n}, also on a page without records: {pv(F, total)}")
                r.ob(key + ":page", pg == K(page), wh, f"the page listed: {pv(F, pg)}")
                k = max(0, min(limit, n - (page - 1) * limit))
                r.ob(key + ":size", len(rs) == k, wh, f"{k} records must be on page {page} of {limit}, not {len(rs)}")
                seen += rs
                if limit > n and page == 2:
                    break
            for b in want:
                hit = [x for x in seen if ident(x) == ident(b)]
                key = f"list:{name}:{limit if limit < HUGE else 'max'}:each"
                if r.ob(key, len(hit) == 1, wh, f"{what} must be listed once over all pages, not {len(hit)} times"):
                    if name == "fetch_all_oca_bundle":
                        fc.same_bundle(r, key + ":same", hit[0], b, wh, "a listed bundle")
                    else:
                        r.eq(key + ":same", hit[0], b, wh, "a listed capture base")
            r.ob(f"list:{name}:{limit if limit < HUGE else 'max'}:nothing-else", len(seen) == n, wh, f"{len(seen)} records listed for {n} built")
        for key, limit, page in (("page-0", 2, 0), ("limit-0", 0, 1), ("all-0", 0, 0), ("last-page", 3, HUGE), ("largest", HUGE, HUGE), ("largest-0", HUGE, 0)):
            key = f"list:{name}:{key}"
            rs, total, pg = records(r, key, w, name, limit, page)
            if rs is not None:
                k = 0 if page > 1 else min(limit, n)
                r.ob(key + ":size", len(rs) == k and total == K(n), wh, f"{k} records of {n} must be listed, not {len(rs)} of {pv(F, total)}")


@exactly
def search(r):
    F = r.F
    f = fc.meth(r, "search_oca_bundle")
    wh = r.where(f)
    w, bs = filled(r)
    if bs is None:
        return

    def ask(key, lang, q, limit=10, page=1):
        x = call(r, key, w, "search_oca_bundle", lang, q, K(limit), K(page))
        if x is None:
            return None, None
        rs, md = field(F, x[1], "records"), field(F, x[1], "metadata")
        if not r.ob(key + ":records", rs is not None and rs[0] == "t", wh, f"the records are not determined: {pv(F, x[1])[:200]}"):
            return None, None
        r.ob(key + ":page", field(F, md, "page") == K(page), wh, f"the page: {pv(F, md)}")
        if key.endswith(":w:any") and written(F, x[1][1]):
            cs = codec.setf
            x = (x[0], cs(F, x[1], "records", ("t", tuple(cs(F, y, "metadata", cs(F, field(F, y, "metadata"), "score", S(f"!score{i}"))) for i, y in enumerate(rs[1])))))
            one = lambda y: sm.jobj([(K("oca_bundle"), se.emit(r, field(F, y, "oca_bundle"))), (K("metadata"), sm.jobj([(K(k), field(F, field(F, y, "metadata"), k)) for k in ("phrase", "scope", "score")]))])
            want = sm.jobj([(K("r"), ("t", tuple(one(y) for y in field(F, x[1], "records")[1]))), (K("m"), sm.jobj([(K("total"), field(F, md, "total")), (K("page"), K(page))]))])
            r.eq(key + ":json", se.emit(r, x[1]), want, wh, "the JSON of what is found")
        r.ob(key + ":changes-nothing", same_val(x[0][0], w[0]) and rows(x[0][1]) == rows(w[1]), wh, "searching must change nothing")
        return list(rs[1]), field(F, md, "total")

    def rows(db):
        return {t[0]: t[5] for t in db[1] if t[5]} if db is not None and db[0] == "k" else None
    ident = lambda x: only(field(F, x, "said"), 1)
    langs = [("any", NONE)] + [(l, some(K("lang:" + l))) for l in ("eng", "pol", "deu")]
    for snip in ("whole", "part"):
        for grp in ("first", "last"):
            if r.tier == "quick" and (snip, grp) not in (("whole", "first"), ("part", "last")):
                continue
            sqlmodels.SNIPPET, sqlmodels.GROUP = snip, grp
            for q, want in WORDS:
                for ln, lang in langs:
                    key = f"search:{snip}:{grp}:{q.strip('{}')}:{ln}"
                    rs, total = ask(key, lang, T(q))
                    if rs is None:
                        continue
                    r.ob(key + ":number", len(rs) == len(want) and total == K(len(want)), wh, f"{len(want)} bundles have {q} in a name or description; {len(rs)} found, total {pv(F, total)}")
                    for b in want:
                        hit = [x for x in rs if ident(field(F, x, "oca_bundle")) == ident(bs[b])]
                        if not r.ob(f"{key}:{b}", len(hit) == 1, wh, f"the bundle `{b}` must be found once, not {len(hit)} times"):
                            continue
                        fc.same_bundle(r, f"{key}:{b}:same", field(F, hit[0], "oca_bundle"), bs[b], wh, "a bundle found")
                        m = field(F, hit[0], "metadata")
                        ph = field(F, m, "phrase")
                        r.ob(f"{key}:{b}:phrase", ph is not None and repr(("<mark>")) and marked(F, ph, T(q)), wh, f"the text around the match must be given: {pv(F, ph)}")
                        r.ob(f"{key}:{b}:scope", field(F, m, "scope") == K("meta_overlay"), wh, f"where the match is: {pv(F, field(F, m, 'scope'))}")
                        if ln == "any" and q == "{w}":
                            r.ob(f"{key}:{b}:score", "rank:" in repr(field(F, m, "score")), wh, f"how well it matches: {pv(F, field(F, m, 'score'))}")
    sqlmodels.SNIPPET, sqlmodels.GROUP = "whole", "first"
    n = len(dict(WORDS)["{w}"])
    for ln, lang in langs[:2]:
        for limit in (1, 2, HUGE):
            seen = []
            for page in range(1, n + 2):
                key = f"search:pages:{ln}:{limit if limit < HUGE else 'max'}:{page}"
                rs, total = ask(key, lang, T("{w}"), limit, page)
                if rs is None:
                    return
                k = max(0, min(limit, n - (page - 1) * limit))
                r.ob(key + ":size", len(rs) == k and total == K(n), wh, f"{k} of {n} bundles must be on page {page} of {limit}, not {len(rs)} of {pv(F, total)}")
                seen += [ident(field(F, x, "oca_bundle")) for x in rs]
            r.ob(f"search:pages:{ln}:{limit if limit < HUGE else 'max'}:each", sorted(map(repr, seen)) == sorted(repr(ident(bs[b])) for b in dict(WORDS)["{w}"]), wh, "every bundle found must be on one page")
        for key, limit, page in (("page-0", 2, 0), ("limit-0", 0, 1), ("largest", HUGE, HUGE), ("largest-0", HUGE, 0)):
            key = f"search:pages:{ln}:{key}"
            rs, total = ask(key, lang, T("{w}"), limit, page)
            if rs is not None:
                k = 0 if page > 1 else min(limit, n)
                r.ob(key + ":size", len(rs) == k and total == K(n), wh, f"{k} of {n} bundles must be given, not {len(rs)} of {pv(F, total)}")
        for i, q in enumerate(("", "\"", "{w} AND", "({w}", "{w})", "{w}-{x}", "nocolumn:{w}", "AND", "{w} \"")):
            key = f"search:malformed:{ln}:{i}"
            rs, total = ask(key, lang, T(q))
            if rs is not None:
                r.ob(key + ":none", rs == [] and total == K(0), wh, f"the expression {q} cannot be read: nothing is found, not {len(rs)} bundles of {pv(F, total)}")


def marked(F, ph, w):
    """the phrase holds the word between marks"""
    ps = list(ph[1]) if ph[0] == "cat" else [ph]
    ws = list(w[1]) if w[0] == "cat" else [w]
    for i in range(len(ps) - len(ws) + 1):
        if ps[i:i + len(ws)] == ws and i > 0 and ps[i - 1][0] == "k" and str(ps[i - 1][1]).endswith("<mark>") and i + len(ws) < len(ps) and ps[i + len(ws)][0] == "k" and str(ps[i + len(ws)][1]).startswith("</mark>"):
            return True
    return False
