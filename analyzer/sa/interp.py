"""Abstract interpreter over MIR facts.

Domain (all values hashable):
  None                       bottom
  ('k', v)                   known scalar / string
  ('s', labels)              unknown value; labels = where it came from
  ('a', adt, ((variant,(fields..)),..))   ADT value, set of possible variants
  ('t', fields)              tuple / array / vector or iterator of exactly these elements
  ('m', ((key,value),..), tags)   map of exactly these entries
  ('c', elem, key, tags)     collection or iterator (elem/key summarise all members)
  ('cat', parts)             string concatenation
  ('clo', hash, captures) ('fn', key)     callables
  ('r', targets)             pointer; targets = frozenset of (fid, key, steps)
  ('d', targets, adt)        discriminant of the value at targets
  ('p', kind, pos, data)     predicate, refined on branching
  ('or', values)             union of ADT values of different types

Function calls into the workspace are analysed by inlining (context = call string), library calls by the
models in models.py, anything else by "result depends on the arguments".  Loops run to a fixpoint with joins.
States are partitioned by typestate tokens and by the known variant of live results and flags.
"""
import heapq
import re
import sys
import time
from facts import succs, norm

sys.setrecursionlimit(20000)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
BOX = "alloc::boxed::Box"
TRANSPARENT = {OPTION, RESULT, CF, BOX, "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
               "alloc::sync::Arc", "alloc::rc::Rc", "alloc::borrow::Cow", "core::mem::maybe_uninit::MaybeUninit",
               "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling"}
PASS = {"core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling"}
MAXLAB = 140
MAXCAT = 200


def K(v):
    return ("k", v)


def S(*labels):
    return ("s", frozenset(labels))


def SL(labels):
    return ("s", frozenset(labels))


TOP = S()
UNIT = ("t", ())
EMPTY = ("c", None, None, frozenset())


def A(adt, *variants):
    """A(path, (v, (fields)), ...)"""
    return ("a", adt, tuple(sorted(variants)))


def some(v):
    return ("a", OPTION, ((1, (v,)),))


NONE = ("a", OPTION, ((0, ()),))


def opt(v):
    if v is None:
        return NONE
    return ("a", OPTION, ((0, ()), (1, (v,))))


def ok(v):
    return ("a", RESULT, ((0, (v,)),))


def err(v):
    return ("a", RESULT, ((1, (v,)),))


def res(v, e):
    return ("a", RESULT, ((0, (v,)), (1, (e,))))


TRUE, FALSE = K(1), K(0)


def lab_ext(l, suffix):
    if len(l) + len(suffix) > MAXLAB or l.startswith("="):
        return l
    return l + suffix


def s_ext(v, suffix):
    return ("s", frozenset(lab_ext(l, suffix) for l in v[1]))


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


class St:
    __slots__ = ("fr", "own", "tok")

    def __init__(self, fr=None, tok=frozenset()):
        self.fr = fr or {}
        self.own = set()
        self.tok = tok

    def copy(self):
        n = St(dict(self.fr), self.tok)
        self.own = set()
        return n

    def get(self, fid, key):
        f = self.fr.get(fid)
        return f.get(key) if f is not None else None

    def has(self, fid, key):
        f = self.fr.get(fid)
        return f is not None and key in f

    def set(self, fid, key, v):
        f = self.fr.get(fid)
        if f is None:
            self.fr[fid] = {key: v}
            self.own.add(fid)
            return
        if fid not in self.own:
            f = dict(f)
            self.fr[fid] = f
            self.own.add(fid)
        f[key] = v

    def with_tok(self, tok):
        n = self.copy()
        n.tok = frozenset(tok)
        return n


WIDTH = {"u8": 2 ** 8, "u16": 2 ** 16, "u32": 2 ** 32, "u64": 2 ** 64, "usize": 2 ** 64, "u128": 2 ** 128}


class Ctx:
    """what a hook sees about one call"""
    __slots__ = ("ip", "st", "c", "np", "rp", "args", "site", "fid", "chain", "body", "dest_ty", "caller", "mut")


def liveness(body):
    if body._live is not None:
        return body._live
    n = len(body.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    addr = set()

    def u(b, p, isdef=False):
        if isdef and not p[1]:
            if p[0] not in use[b]:
                dfn[b].add(p[0])
            return
        if p[0] not in dfn[b]:
            use[b].add(p[0])
        for e in p[1]:
            if e[0] == "[" and e[1] not in dfn[b]:
                use[b].add(e[1])

    def uo(b, o):
        if o[0] in ("c", "m"):
            u(b, o[1])

    for b, (st, t, cl) in enumerate(body.blocks):
        for s in st:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k in ("use", "repeat"):
                    uo(b, r[1])
                elif k == "ref":
                    u(b, r[1])
                    if not any(e[0] == "*" for e in r[1][1]):
                        addr.add(r[1][0])
                elif k == "cast":
                    uo(b, r[2])
                    # pointer taken out of a box keeps the box alive
                    if r[2][0] in ("c", "m"):
                        pl = r[2][1]
                        if pl[1] and pl[1][0][0] == "." and pl[1][0][2].get("p") == BOX:
                            addr.add(pl[0])
                elif k == "bin":
                    uo(b, r[2]); uo(b, r[3])
                elif k == "un":
                    uo(b, r[2])
                elif k == "discr":
                    u(b, r[1])
                    addr.add(r[1][0]) if False else None
                elif k == "agg":
                    for x in r[2]:
                        uo(b, x)
                u(b, s[1], True)
            else:
                u(b, s[1])
        k = t[0]
        if k == "switch":
            uo(b, t[1])
        elif k == "call":
            uo(b, t[1])
            for x in t[2]:
                uo(b, x)
            u(b, t[3], True)
        elif k == "assert":
            uo(b, t[1])
        elif k == "return":
            use[b].add(0) if 0 not in dfn[b] else None
    live = [set(use[b]) for b in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in succs(body.blocks[b][1]):
                o |= live[s]
            nl = use[b] | (o - dfn[b])
            if nl != live[b]:
                live[b] = nl
                ch = True
    # a discriminant read refers back to its place: keep those locals as long as the discriminant is live
    dd = {}
    for b, (st, t, cl) in enumerate(body.blocks):
        for s in st:
            if s[0] == "=" and s[2][0] in ("discr", "use", "bin", "un") and not s[1][1]:
                r = s[2]
                if r[0] == "discr":
                    dd.setdefault(s[1][0], set()).add(r[1][0])
    body._live = (live, addr, dd)
    return body._live


def dropflags(body):
    if body._flags is not None:
        return body._flags
    r = set()
    for st, t, cl in body.blocks:
        if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
            l = t[1][1][0]
            if body.locals[l]["k"] == "bool":
                for b in [x for _, x in t[2]] + [t[3]]:
                    if not body.blocks[b][0] and body.blocks[b][1][0] == "drop":
                        r.add(l)
    names = {p[0] for n, p in body.names if isinstance(p, list) and not p[1]}
    body._flags = r - names
    return body._flags


def haspar(t):
    """mentions a type parameter"""
    r = t.get("_hp")
    if r is None:
        r = t["k"] == "param" or (isinstance(t.get("t"), dict) and haspar(t["t"])) or any(haspar(x) for x in t.get("a") or () if isinstance(x, dict))
        t["_hp"] = r
    return r


def isit(t):
    r = t.get("_it")
    if r is None:
        n = t
        while n["k"] in ("ref", "ptr"):
            n = n["t"]
        p = n.get("p", n["s"])
        r = t["_it"] = ("iter" in p.lower() or "::ops::range::" in p or p.split("::")[-1] in ("Keys", "Values", "ValuesMut", "Drain", "RSplit", "SplitN", "RSplitN", "SplitTerminator", "SplitInclusive", "SplitAsciiWhitespace", "Components", "ExtractIf", "Splice", "SubCaptureMatches", "RMatches", "MatchIndices", "Windows", "Chunks", "SymmetricDifference", "Chars", "Lines", "Split", "CaptureMatches", "Matches", "Bytes", "CharIndices", "SplitWhitespace", "IntoKeys", "IntoValues", "Difference", "Union", "Intersection", "ReadDir", "MappedRows", "Skip", "Take", "Map", "Filter", "Zip", "Chain", "Rev", "Enumerate", "FilterMap"))
    return r


def rpo(body):
    if body._rpo is not None:
        return body._rpo
    seen, order = set(), []
    stack = [(0, iter(succs(body.blocks[0][1])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(body.blocks[s][1]))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    body._rpo = {b: i for i, b in enumerate(order)}
    return body._rpo


def inloop(body):
    """blocks that lie on a cycle"""
    if body._loopheads is not None:
        return body._loopheads
    idx, low, on, stack, out, n = {}, {}, set(), [], set(), 0
    for root in rpo(body):
        if root in idx:
            continue
        work = [(root, None)]
        while work:
            b, it = work.pop()
            if it is None:
                idx[b] = low[b] = n
                n += 1
                stack.append(b)
                on.add(b)
                it = iter(succs(body.blocks[b][1]))
            for s in it:
                if s not in idx:
                    work.append((b, it))
                    work.append((s, None))
                    break
                if s in on:
                    low[b] = min(low[b], idx[s])
            else:
                if low[b] == idx[b]:
                    comp = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == b:
                            break
                    if len(comp) > 1 or b in succs(body.blocks[b][1]):
                        out |= set(comp)
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[b])
    body._loopheads = frozenset(out)
    return body._loopheads


class Ip:
    def __init__(self, F, hooks=(), max_depth=60, budget=120.0, part_limit=400):
        import models, strmodels, sermodels, demodels, bytemodels, textmodels, pestmodels, luamodels
        self.F = F
        self.hooks = list(hooks)
        self.models = models
        self.max_depth = max_depth
        self.part_limit = part_limit
        self.hash_rev = False
        self.fids = {}
        self.tenv = {}          # frame -> what its function's type parameters stand for
        self.nfid = 0
        self.t0 = time.time()
        self.budget = budget
        self.unmodelled = {}
        self.analysed = {}      # function path -> number of contexts analysed
        self.panics = {}        # site -> description
        self.ctors = {}
        for p, a in F.adts.items():
            for i, v in enumerate(a["v"]):
                if a["kind"] == "enum":
                    self.ctors[p + "::" + v["n"]] = (p, i)
                else:
                    self.ctors[p] = (p, 0)
        self.ctors["core::option::Option::Some"] = (OPTION, 1)
        self.ctors["core::result::Result::Ok"] = (RESULT, 0)
        self.ctors["core::result::Result::Err"] = (RESULT, 1)
        self.prom_cache = {}
        self.boxalias = {}     # (frame, box temporary) -> places it was copied from
        self.const_cache = {}
        self.steps = 0
        self.mutargs = ()

    # ------------------------------------------------------------------ values
    def fieldname(self, adt, var, idx):
        a = self.F.adts.get(adt)
        if not a or not a["v"]:
            return str(idx)
        v = a["v"][var or 0] if (var or 0) < len(a["v"]) else None
        if v is None or idx >= len(v["f"]):
            return str(idx)
        n = v["f"][idx]["n"]
        if a["kind"] == "enum":
            return v["n"] if n == "0" and len(v["f"]) == 1 else v["n"] + "." + n
        return n

    def ext(self, v, adt, var, idx):
        if adt in TRANSPARENT:
            return v
        if adt is None:
            return s_ext(v, "." + str(idx))
        return s_ext(v, "." + self.fieldname(adt, var, idx))

    def expand(self, v, adt, variants=None):
        """unknown value of ADT type -> explicit ADT value"""
        if adt in ("core::option::Option",):
            vs = [(0, ()), (1, (v,))]
        elif adt == RESULT or adt == CF:
            vs = [(0, (v,)), (1, (v,))]
        else:
            a = self.F.adts.get(adt)
            if not a or not a["v"]:
                return v
            vs = []
            for i, x in enumerate(a["v"]):
                vs.append((i, tuple(self.ext(v, adt, i, j) for j in range(len(x["f"])))))
        if variants is not None:
            vs = [x for x in vs if x[0] in variants]
        return ("a", adt, tuple(vs))

    def discr_of(self, adt, var):
        if adt in (OPTION, RESULT, CF):
            return var
        a = self.F.adts.get(adt)
        if a and var < len(a["v"]):
            return a["v"][var]["d"]
        return var

    def nvariants(self, adt):
        if adt in (OPTION, RESULT, CF):
            return 2
        a = self.F.adts.get(adt)
        return len(a["v"]) if a else 0

    def join(self, a, b, depth=0):
        if a is b or b is None or a == b:
            return a
        if a is None:
            return b
        ta, tb = a[0], b[0]
        if depth > 14:
            return SL(self.labels(a) | self.labels(b))
        if ta == tb:
            if ta == "k":
                if isinstance(a[1], str) or isinstance(b[1], str):
                    return S("=" + str(a[1]), "=" + str(b[1]))
                return TOP
            if ta == "s":
                return ("s", a[1] | b[1])
            if ta == "r":
                return ("r", a[1] | b[1])
            if ta == "t":
                if len(a[1]) == len(b[1]):
                    return ("t", tuple(self.join(x, y, depth + 1) for x, y in zip(a[1], b[1])))
                return self.join(self.tocol(a), self.tocol(b), depth)
            if ta == "m":
                if len(a[1]) == len(b[1]) and all(x[0] == y[0] for x, y in zip(a[1], b[1])):
                    return ("m", tuple((x[0], self.join(x[1], y[1], depth + 1)) for x, y in zip(a[1], b[1])), a[2] | b[2])
                return self.join(self.tocol(a), self.tocol(b), depth)
            if ta == "c":
                return ("c", self.join(a[1], b[1], depth + 1), self.join(a[2], b[2], depth + 1), a[3] | b[3])
            if ta == "a":
                if a[1] == b[1]:
                    m = dict(a[2])
                    for v, fs in b[2]:
                        if v in m:
                            m[v] = tuple(self.join(x, y, depth + 1) for x, y in zip(m[v], fs))
                        else:
                            m[v] = fs
                    return ("a", a[1], tuple(sorted(m.items(), key=lambda x: x[0])))
                return self.mkor([a, b], depth)
            if ta == "or":
                return self.mkor(list(a[1]) + list(b[1]), depth)
            if ta == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
                return ("clo", a[1], tuple(self.join(x, y, depth + 1) for x, y in zip(a[2], b[2])))
            if ta in ("d", "p"):
                return TOP
            if ta == "cat":
                return SL(self.labels(a) | self.labels(b))
            return self.mkor([a, b], depth)
        if ta == "or" and tb in ("a", "clo", "fn"):
            return self.mkor(list(a[1]) + [b], depth)
        if tb == "or" and ta in ("a", "clo", "fn"):
            return self.mkor([a] + list(b[1]), depth)
        if ta in ("clo", "fn") and tb in ("clo", "fn"):
            return self.mkor([a, b], depth)
        if ta == "m":
            a, ta = self.tocol(a), "c"
        if tb == "m":
            b, tb = self.tocol(b), "c"
        if ta == "c" and tb == "c":
            return self.join(a, b, depth)
        if tb == "s":
            a, b, ta, tb = b, a, tb, ta
        if ta == "s":
            if not a[1] and tb in ("d", "p"):
                return a
            if tb == "a":
                return self.join(self.expand(a, b[1]), b, depth + 1) if b[1] in self.F.adts or b[1] in (OPTION, RESULT, CF) else ("s", a[1] | self.labels(b))
            if tb == "c":
                e = s_ext(a, "[]")
                return ("c", self.join(e, b[1], depth + 1), self.join(s_ext(a, "[k]") if b[2] is not None else None, b[2], depth + 1), b[3])
            if tb == "t":
                return ("t", tuple(self.join(self.ext(a, None, None, i), x, depth + 1) for i, x in enumerate(b[1])))
            if tb == "r":
                return ("r", b[1] | frozenset([("S", a[1], ())]))
            if tb in ("clo", "fn"):
                return b
            return ("s", a[1] | self.labels(b))
        if ta == "t" and tb == "c":
            a, b, ta, tb = b, a, tb, ta
        if ta == "c" and tb == "t":
            e = a[1]
            for x in b[1]:
                e = self.join(e, x, depth + 1)
            return ("c", e, a[2], a[3])
        return SL(self.labels(a) | self.labels(b))

    def tocol(self, v):
        """summarise an exact list / map"""
        if v[0] == "c":
            return v
        e = k = None
        if v[0] == "m":
            for x, y in v[1]:
                k = self.join(k, x)
                e = self.join(e, y)
            return ("c", e, k, v[2])
        for x in v[1]:
            e = self.join(e, x)
        return ("c", e, None, frozenset())

    def mkor(self, vs, depth):
        m = {}
        for v in vs:
            k = v[:2] if v[0] in ("a", "clo", "fn") else v[0]
            if k in m:
                m[k] = self.join(m[k], v, depth + 1)
            else:
                m[k] = v
        if len(m) == 1:
            return next(iter(m.values()))
        if any(x[0] not in ("a", "clo", "fn") for x in m.values()):
            l = frozenset()
            for x in m.values():
                l |= self.labels(x)
            return ("s", l)
        return ("or", tuple(sorted(m.values(), key=repr)))

    def labels(self, v, st=None, seen=None):
        """all provenance labels inside v (through pointers when a state is given)"""
        if v is None:
            return frozenset()
        t = v[0]
        if t == "s":
            return v[1]
        if t == "k":
            if isinstance(v[1], str):
                return frozenset(["=" + v[1]])
            return frozenset()
        r = set()
        if t == "a":
            for _, fs in v[2]:
                for f in fs:
                    r |= self.labels(f, st, seen)
            # the choice of a field-less variant is itself information
            if v[1] in self.F.adts and self.F.adts[v[1]]["kind"] == "enum" and v[1] not in TRANSPARENT and len(v[2]) == 1 and not v[2][0][1]:
                r.add("=" + v[1].split("::")[-1] + "::" + self.F.adts[v[1]]["v"][v[2][0][0]]["n"])
        elif t in ("t", "or"):
            for f in v[1]:
                r |= self.labels(f, st, seen)
        elif t == "c":
            r |= self.labels(v[1], st, seen) | self.labels(v[2], st, seen)
        elif t == "m":
            for x, y in v[1]:
                r |= self.labels(x, st, seen) | self.labels(y, st, seen)
        elif t == "cat":
            for f in v[1]:
                r |= self.labels(f, st, seen)
        elif t == "clo":
            for f in v[2]:
                r |= self.labels(f, st, seen)
        elif t == "r":
            if st is not None:
                seen = seen or set()
                for tg in v[1]:
                    if tg in seen:
                        continue
                    seen.add(tg)
                    r |= self.labels(self.load(st, tg), st, seen)
            else:
                for tg in v[1]:
                    if tg[0] == "S":
                        r |= tg[1]
        elif t == "p":
            for x in v[3]:
                if isinstance(x, tuple) and x and x[0] == "s":
                    r |= x[1]
        return frozenset(r)

    # ------------------------------------------------------------------ memory
    def rstep(self, v, step):
        """one projection step on a value"""
        if v is None:
            return None
        t = v[0]
        k = step[0]
        if k == ".":
            _, var, idx, adt = step
            if adt in PASS and (t != "a" or v[1] != adt):
                return v
            if t == "a":
                m = dict(v[2])
                if v[1] != adt and adt is not None and adt not in TRANSPARENT and v[1] in self.F.adts and adt in self.F.adts:
                    return None
                x = m.get(var if var is not None else 0)
                if x is None:
                    return None
                return x[idx] if idx < len(x) else TOP
            if t == "t":
                return v[1][idx] if idx < len(v[1]) else TOP
            if t == "clo":
                return v[2][idx] if idx < len(v[2]) else TOP
            if t == "s":
                return self.ext(v, adt, var, idx)
            if t == "or":
                r = None
                for x in v[1]:
                    r = self.join(r, self.rstep(x, step))
                return r
            if t == "r" or adt in TRANSPARENT:
                return v
            return SL(self.labels(v))
        if k == "e":
            if t == "c":
                return v[1]
            if t == "m":
                return self.tocol(v)[1]
            if t == "t":
                r = None
                for x in v[1]:
                    r = self.join(r, x)
                return r
            if t == "s":
                return s_ext(v, "[]")
            if t == "r":
                return v
            return SL(self.labels(v))
        if k == "K":
            if t == "c":
                return v[2]
            if t == "m":
                return self.tocol(v)[2]
            if t == "s":
                return s_ext(v, "[k]")
            return SL(self.labels(v))
        if k == "mv":
            if t == "m":
                return v[1][step[1]][1] if step[1] < len(v[1]) else None
            return self.rstep(v, ("e",))
        if k == "mk":
            if t == "m":
                return v[1][step[1]][0] if step[1] < len(v[1]) else None
            return self.rstep(v, ("K",))
        if k == "i":
            if t == "t":
                if any(x is not None and x[0] == "a" and x[1] == "bytes::Text" for x in v[1]):
                    import bytemodels
                    return bytemodels.byteat(v, step[1])
                return v[1][step[1]] if -len(v[1]) <= step[1] < len(v[1]) else None
            if t in ("k", "cat"):
                import bytemodels
                return bytemodels.byteat(v, step[1])
            return self.rstep(v, ("e",))
        if k == "sl":
            import bytemodels
            return bytemodels.subslice(v, *step[1:]) or (v if t in ("c", "s") else SL(self.labels(v)))
        return SL(self.labels(v))

    def load(self, st, tg):
        if tg[0] == "S":
            v = ("s", tg[1])
        else:
            v = st.get(tg[0], tg[1])
        for s in tg[2]:
            v = self.rstep(v, s)
        return v

    def wsteps(self, v, steps, new, strong):
        if not steps:
            return new if strong else self.join(v, new)
        s = steps[0]
        k = s[0]
        if v is None:
            if k == ".":
                _, var, idx, adt = s
                if adt in TRANSPARENT and adt not in (OPTION, RESULT, CF):
                    return self.wsteps(None, steps[1:], new, strong)
                if adt is None:
                    fs = [None] * (idx + 1)
                    fs[idx] = self.wsteps(None, steps[1:], new, strong)
                    return ("t", tuple(fs))
                a = self.F.adts.get(adt)
                n = len(a["v"][var or 0]["f"]) if a and a["v"] else idx + 1
                fs = [None] * max(n, idx + 1)
                fs[idx] = self.wsteps(None, steps[1:], new, strong)
                return ("a", adt, ((var or 0, tuple(fs)),))
            return self.wsteps(EMPTY, steps, new, False) if k in ("e", "K", "mv") else None
        t = v[0]
        if k == ".":
            _, var, idx, adt = s
            if adt in PASS and (t != "a" or v[1] != adt):
                return self.wsteps(v, steps[1:], new, strong)
            if t == "s" and adt is not None and adt not in TRANSPARENT:
                v = self.expand(v, adt, None if var is None else [var])
                t = v[0]
            if t == "s" and adt in (OPTION, RESULT):
                v = self.expand(v, adt, [var])
                t = v[0]
            if t == "a":
                m = dict(v[2])
                vv = var if var is not None else 0
                if vv not in m:
                    return v
                fs = list(m[vv])
                while len(fs) <= idx:
                    fs.append(None)
                fs[idx] = self.wsteps(fs[idx], steps[1:], new, strong)
                m[vv] = tuple(fs)
                return ("a", v[1], tuple(sorted(m.items(), key=lambda x: x[0])))
            if t == "t":
                fs = list(v[1])
                while len(fs) <= idx:
                    fs.append(None)
                fs[idx] = self.wsteps(fs[idx], steps[1:], new, strong)
                return ("t", tuple(fs))
            if t == "clo":
                fs = list(v[2])
                if idx < len(fs):
                    fs[idx] = self.wsteps(fs[idx], steps[1:], new, strong)
                return ("clo", v[1], tuple(fs))
            if t == "or":
                return ("or", tuple(sorted((self.wsteps(x, steps, new, False) if (x[0] != "a" or x[1] == adt or adt in TRANSPARENT) else x for x in v[1]), key=repr)))
            if adt in TRANSPARENT:
                return self.wsteps(v, steps[1:], new, strong)
            return ("s", self.labels(v) | self.labels(new))
        if k == "mv" and t == "m":
            fs = list(v[1])
            if s[1] < len(fs):
                fs[s[1]] = (fs[s[1]][0], self.wsteps(fs[s[1]][1], steps[1:], new, strong))
            return ("m", tuple(fs), v[2])
        if t == "m" and k in ("e", "i"):
            return ("m", tuple((x, self.wsteps(y, steps[1:], new, False)) for x, y in v[1]), v[2])
        if k == "i" and t == "t":
            fs = list(v[1])
            if -len(fs) <= s[1] < len(fs):
                fs[s[1]] = self.wsteps(fs[s[1]], steps[1:], new, strong)
            return ("t", tuple(fs))
        if k in ("e", "i", "mv"):
            if t == "s":
                v = ("c", s_ext(v, "[]"), s_ext(v, "[k]"), frozenset())
                t = "c"
            if t == "c":
                return ("c", self.wsteps(v[1], steps[1:], new, False), v[2], v[3])
            if t == "t":
                return ("t", tuple(self.wsteps(x, steps[1:], new, False) for x in v[1]))
            return v
        return v

    def store(self, st, tgs, new):
        tgs = [t for t in tgs if t[0] != "S"]
        one = len(tgs) == 1
        for tg in tgs:
            cur = st.get(tg[0], tg[1])
            weak = any(s[0] in ("e", "K") for s in tg[2])
            st.set(tg[0], tg[1], self.wsteps(cur, tg[2], new, one and not weak))

    def loadall(self, st, tgs):
        r = None
        for tg in tgs:
            r = self.join(r, self.load(st, tg))
        return r

    def deref(self, st, v, n=8):
        """follow pointers down to a non-pointer value"""
        while v is not None and v[0] == "r" and n:
            v = self.loadall(st, v[1])
            n -= 1
        return v

    # ------------------------------------------------------------------ places
    def place(self, st, fid, p):
        """-> list of targets (fid, key, steps)"""
        tgs = [(fid, p[0], ())]
        for e in p[1]:
            k = e[0]
            if k == "*":
                n = []
                for tg in tgs:
                    v = self.load(st, tg)
                    if v is None:
                        continue
                    if v[0] == "r":
                        n.extend(v[1])
                    elif v[0] == "s":
                        n.append(("S", v[1], ()))
                    elif v[0] == "or":
                        n.append(tg)
                    else:
                        n.append(tg)      # &str constants, boxes held by value
                tgs = list(dict.fromkeys(n))
            elif k == ".":
                _, idx, ty, var = e
                adt = ty.get("p") if ty["k"] == "adt" else None
                if adt == BOX and idx == 0:
                    # raw pointer inside a box: the box itself
                    n = []
                    for tg in tgs:
                        al = self.boxalias.get((tg[0], tg[1])) if not tg[2] else None
                        n.extend(al if al else [tg])
                    tgs = [("BOXPTR",) + tg for tg in n]
                    continue
                if tgs and tgs[0][0] == "BOXPTR":
                    continue
                tgs = [(t[0], t[1], t[2] + ((".", var, idx, adt),)) for t in tgs]
            elif k == "[":
                iv = st.get(fid, e[1])
                if iv is not None and iv[0] == "k" and isinstance(iv[1], int):
                    tgs = [(t[0], t[1], t[2] + (("i", iv[1]),)) for t in tgs]
                else:
                    tgs = [(t[0], t[1], t[2] + (("e",),)) for t in tgs]
            elif k == "c":
                n = -e[1] if e[2] else e[1]
                out = []
                for t in tgs:
                    if t[2] and t[2][-1][0] == "sl" and (n >= 0 or t[2][-1][3]):
                        _, lo, hi, _ = t[2][-1]
                        out.append((t[0], t[1], t[2][:-1] + (("i", lo + n if n >= 0 else n - hi),)))
                    else:
                        out.append((t[0], t[1], t[2] + (("i", n),)))
                tgs = out
            elif k == "sub":
                tgs = [(t[0], t[1], t[2] + (("sl", e[1], e[2], bool(e[3])),)) for t in tgs]
            elif k in ("v",):
                continue
            else:
                continue
        return tgs

    def read_place(self, st, fid, p):
        tgs = self.place(st, fid, p)
        if tgs and tgs[0][0] == "BOXPTR":
            return ("r", frozenset(t[1:] for t in tgs))
        r = None
        for tg in tgs:
            r = self.join(r, self.load(st, tg))
        return r

    def operand(self, st, fid, o, body):
        if o[0] in ("c", "m"):
            return self.read_place(st, fid, o[1])
        if o[0] == "k":
            return self.const(st, o[1], body, fid)
        return TOP

    def const(self, st, c, body, fid=None):
        if "fn" in c:
            return ("fn", self.fnkey(self.mono(c["fn"], fid)))
        if "prom" in c:
            return self.promoted(st, c["h"], c["prom"])
        if "str" in c:
            return K(c["str"])
        if "v" in c:
            return K(c["v"])
        if "b" in c:
            b = bytes(c["b"])
            return ("k", b)
        if "sh" in c:
            return self.static(st, c["sh"], c["static"])
        if c.get("zst"):
            t = c["t"]
            if t["k"] == "adt":
                a = self.F.adts.get(t["p"])
                if a and a["kind"] == "struct":
                    return ("a", t["p"], ((0, tuple(TOP for _ in (a["v"][0]["f"] if a["v"] else []))),))
            if t["k"] == "closure":
                return ("clo", t["h"], self.clenv(fid))
            return UNIT
        if "h" in c:
            v = self.constfn(st, c["h"])
            if v is not None:
                return v
            return S("const:" + c.get("p", "?"))
        return TOP

    # ------------------------------------------------------------------ what type parameters stand for
    _types = {}
    _monos = {}

    def tkey(self, t):
        k = t["s"] + ("#" + t["h"] if "h" in t else "")
        Ip._types.setdefault(k, t)
        return k

    def subst(self, t, env):
        if t is None or not env or not haspar(t):
            return t
        key = (id(t), env)
        r = Ip._monos.get(key)
        if r is not None:
            return r[1]
        d = dict(env)
        if t["k"] == "param":
            r = Ip._types[d[t["s"]]] if t["s"] in d else t
        else:
            r = {k: v for k, v in t.items() if not k.startswith("_") or k == "_linked"}
            if isinstance(t.get("t"), dict):
                r["t"] = self.subst(t["t"], env)
            if isinstance(t.get("a"), list):
                r["a"] = [self.subst(x, env) if isinstance(x, dict) else x for x in t["a"]]
            s = t["s"]
            for n, k in env:
                s = re.sub(r"(?<![\w:])" + re.escape(n) + r"(?!\w)", lambda m: Ip._types[k]["s"], s)
            r["s"] = s
        Ip._monos[key] = (t, r)
        return r

    def mono(self, c, fid):
        """the callee as the frame sees it: its type parameters replaced, static trait calls resolved"""
        env = self.tenv.get(fid)
        if not env or not any(haspar(t) for t in c["a"]):
            return c
        key = (id(c), env, "c")
        r = Ip._monos.get(key)
        if r is not None:
            return r[1]
        n = dict(c)
        n["a"] = [self.subst(t, env) for t in c["a"]]
        if "ra" in c:
            n["ra"] = [self.subst(t, env) for t in c["ra"]]
        if c.get("tr") and n["a"] and haspar(c["a"][0]) and not haspar(n["a"][0]):
            d = self.F.fns.get(c.get("rh") or c["h"])
            if "rh" not in c or (d is not None and d.trait_default):
                for t, f in self.F.impls.get((c["tr"], c.get("m")), ()):
                    if t["s"] == n["a"][0]["s"] or (t["k"] == "adt" and n["a"][0]["k"] == "adt" and t["p"] == n["a"][0]["p"] and not f.gen):
                        n["rh"], n["rp"], n["rk"] = f.h, f.p, "item"
                        n["ra"] = []
                        break
        Ip._monos[key] = (c, n)
        return n

    def envof(self, fn, c):
        if not fn.gen:
            return ()
        a = c.get("ra") if c.get("rh") == fn.h else c["a"] if c["h"] == fn.h else None
        if a is None or len(a) != len(fn.gen):
            return ()
        return tuple((n, self.tkey(t)) for n, t in zip(fn.gen, a) if not haspar(t))

    def clenv(self, fid):
        env = self.tenv.get(fid)
        return (("k", ("tenv", env)),) if env else ()

    _fnkeys = {}
    _fnvals = {}

    def fnkey(self, c):
        k = c["p"] + "|" + (c.get("rh") or c["h"]) + "|" + ",".join(a["s"] for a in c["a"])
        Ip._fnvals[k] = c
        return k

    def fnkey_type(self, t):
        return t["s"]

    def typeof_key(self, k):
        return self.F.types.get(k)

    def promoted(self, st, h, i):
        fid = ("P", h, i)
        if fid not in self.prom_cache:
            fn = self.F.fns.get(h)
            if fn is None or i >= len(fn.prom):
                return TOP
            b = fn.prom[i]
            s0 = St()
            self.prom_cache[fid] = (TOP, {})
            ex = self.run(b, [], s0, fid, (), keep=True)
            if ex:
                s1, v = ex[0]
                self.prom_cache[fid] = (v, {k: x for k, x in s1.fr.items()})
        v, fr = self.prom_cache[fid]
        for k, x in fr.items():
            if k not in st.fr:
                st.fr[k] = x
        return v

    def constfn(self, st, h):
        if h not in self.const_cache:
            fn = self.F.fns.get(h)
            if fn is None:
                return None
            self.const_cache[h] = (None, {})
            ex = self.run(fn.body, [], St(), ("C", h), (), keep=True)
            if ex:
                s1, v = ex[0]
                self.const_cache[h] = (v, dict(s1.fr))
        v, fr = self.const_cache[h]
        for k, x in fr.items():
            if k not in st.fr:
                st.fr[k] = x
        return v

    def static(self, st, h, p):
        v = self.constfn(st, h)
        fid = ("G", h)
        if fid not in st.fr:
            st.fr[fid] = {0: v if v is not None else S("static:" + p)}
        return ("r", frozenset([(fid, 0, ())]))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fid, r, body, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1], body)
        if k == "ref":
            tgs = self.place(st, fid, r[1])
            if tgs and tgs[0][0] == "BOXPTR":
                return ("r", frozenset(t[1:] for t in tgs))
            if not tgs:
                return None
            if r[1][1] and r[1][1][-1][0] == "*" and len(tgs) == 1 and tgs[0][0] != "S":
                v = self.load(st, tgs[0])
                shared = len(r[1][1]) == 1 and body.locals[r[1][0]]["k"] == "ref" and not body.locals[r[1][0]]["m"]
                if v is not None and (v[0] == "k" and isinstance(v[1], str) or shared and v[0] != "r"):
                    base = self.place(st, fid, [r[1][0], r[1][1][:-1]])
                    if base == tgs:
                        return v          # reborrow of a string constant or of a slice held by value
            pr = r[1][1]
            if len(pr) > 1 and pr[0][0] == "*" and all(e[0] in ("c", "sub", "[") for e in pr[1:]):
                lt = body.locals[r[1][0]]
                b = st.get(fid, r[1][0])
                if lt["k"] == "ref" and not lt["m"] and b is not None and b[0] in ("t", "k", "cat"):
                    v = None
                    for t in tgs:
                        v = self.join(v, self.load(st, t))
                    return v                  # part of a slice held by value
            out = set()
            for t in tgs:
                if t[0] == "S" and t[2]:
                    out.add(("S", self.labels(self.load(st, t)), ()))
                else:
                    out.add(t)
            return ("r", frozenset(out))
        if k == "cast":
            v = self.operand(st, fid, r[2], body)
            t = r[3]
            if "PtrToInt" in r[1] or "IntToFloat" in r[1] or "FloatToInt" in r[1]:
                return TOP
            if v is not None and v[0] == "d":
                return v
            return v
        if k == "discr":
            tgs = self.place(st, fid, r[1])
            ty = r[2]
            adt = ty.get("p") if ty["k"] == "adt" else None
            v = None
            for t in tgs:
                v = self.join(v, self.load(st, t))
            if v is None:
                return None
            if v[0] == "a" and len(v[2]) == 1:
                return K(self.discr_of(v[1], v[2][0][0]))
            return ("d", tuple(tgs), adt)
        if k == "agg":
            vs = [self.operand(st, fid, x, body) for x in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                adt = kk[1]
                if adt == BOX or adt in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    return vs[0] if vs else TOP
                return ("a", adt, ((kk[2], tuple(vs)),))
            if kk[0] in ("tuple", "array"):
                return ("t", tuple(vs))
            if kk[0] == "closure":
                return ("clo", kk[1], tuple(vs) + self.clenv(fid))
            return TOP
        if k == "repeat":
            return ("c", self.operand(st, fid, r[1], body), None, frozenset())
        if k == "bin":
            a = self.operand(st, fid, r[2], body)
            b = self.operand(st, fid, r[3], body)
            return self.binop(st, r[1], a, b, dty.get("s", ""))
        if k == "un":
            v = self.operand(st, fid, r[2], body)
            if r[1] == "Not" and v is not None:
                if v[0] == "k":
                    return K(0 if v[1] else 1) if dty["k"] == "bool" else TOP
                if v[0] == "p":
                    return ("p", v[1], not v[2], v[3])
                return v
            if r[1] == "PtrMetadata":
                import bytemodels
                n = bytemodels.metalen(self.deref(st, v))
                if n is not None:
                    return n
            return SL(self.labels(v))
        return TOP

    def binop(self, st, op, a, b, ty=""):
        if a is None or b is None:
            return None
        ov = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a[0] == "k" and b[0] == "k" and type(a[1]) is type(b[1]) and isinstance(a[1], int):
            x, y = a[1], b[1]
            f = {"Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y),
                 "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y),
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}
            if o in f:
                return K(f[o]())
            if o in ("Add", "Sub", "Mul"):
                n = x + y if o == "Add" else x - y if o == "Sub" else x * y
                r = K(n) if 0 <= n < 1024 else TOP
                w = WIDTH.get(ty.strip("()").split(",")[0])
                if ov and w is not None and not 0 <= n < w:
                    return ("t", (TOP, TRUE))
        elif o in ("Eq", "Ne") and (a[0] == "d" or b[0] == "d"):
            if b[0] == "d":
                a, b = b, a
            if b[0] == "k":
                vs = self.variants_for(a[2], b[1])
                return ("p", "var", o == "Eq", (a[1], a[2], vs))
            return TOP
        if r is None and (a[0] == "a" or b[0] == "a" or a[0] == "k" and b[0] == "k"):
            import bytemodels
            r = bytemodels.arith(o, a, b)
            if r is not None and r[0] == "k" and r[1] >= 4096:
                r = None
            if r is not None and o not in ("Add", "Sub"):
                return r
        if r is None:
            r = SL(self.labels(a) | self.labels(b) | ({"~" + o} if o in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitXor", "BitAnd", "BitOr") else set()))
        if ov:
            return ("t", (r, FALSE))
        return r

    def variants_for(self, adt, d):
        if adt in (OPTION, RESULT, CF) or adt is None:
            return frozenset([d])
        a = self.F.adts.get(adt)
        if not a:
            return frozenset([d])
        return frozenset(i for i, v in enumerate(a["v"]) if v["d"] == d)

    # ------------------------------------------------------------------ refinement
    def refine_variant(self, st, tgs, adt, vs, keep=True):
        """keep (or exclude) variants vs at the targets; False if infeasible"""
        feasible = False
        for tg in tgs:
            if tg[0] == "S":
                feasible = True
                continue
            v = self.load(st, tg)
            if v is None:
                continue
            if v[0] == "or":
                feasible = True
                continue
            if v[0] != "a":
                if v[0] == "s" and adt is not None:
                    n = self.nvariants(adt)
                    if n == 0:
                        feasible = True
                        continue
                    sel = [i for i in range(n) if (i in vs) == keep]
                    if not sel:
                        continue
                    feasible = True
                    if len(tgs) == 1 and not any(s[0] in ("e", "K") for s in tg[2]) and (adt in self.F.adts or adt in (OPTION, RESULT, CF)):
                        cur = st.get(tg[0], tg[1])
                        st.set(tg[0], tg[1], self.wsteps(cur, tg[2], self.expand(v, adt, sel), True))
                    continue
                feasible = True
                continue
            m = [(i, f) for i, f in v[2] if (i in vs) == keep]
            if not m:
                continue
            feasible = True
            if len(m) != len(v[2]) and len(tgs) == 1:
                # for container elements the refined element is only about this access: keep as is
                if not any(s[0] in ("e", "K") for s in tg[2]):
                    cur = st.get(tg[0], tg[1])
                    st.set(tg[0], tg[1], self.wsteps(cur, tg[2], ("a", v[1], tuple(m)), True))
        return feasible

    def assume(self, st, v, truth):
        """refine st by boolean value v == truth; False if infeasible"""
        if v is None:
            return False
        if v[0] == "k":
            return bool(v[1]) == truth
        if v[0] == "p":
            t = truth == v[2]
            if v[1] == "var":
                tgs, adt, vs = v[3][:3]
                return self.refine_variant(st, tgs, adt, vs, keep=t)
            if v[1] == "eqk":
                if t:
                    tgs, const = v[3][:2]
                    if len(tgs) == 1 and tgs[0][0] != "S" and not any(s[0] in ("e", "K") for s in tgs[0][2]):
                        cur = self.load(st, tgs[0])
                        if cur is not None and cur[0] == "s":
                            self.store(st, tgs, const)
                return True
        return True

    # ------------------------------------------------------------------ functions
    def newfid(self, *key):
        f = self.fids.get(key)
        if f is None:
            self.nfid += 1
            f = self.fids[key] = self.nfid
        return f

    def decided(self, st, a):
        """an argument whose shape is known: recursion on it ends"""
        v = self.deref(st, a) if a is not None else None
        for _ in range(3):
            if v is not None and v[0] == "r":
                v = self.deref(st, v)
        return v is not None and (v[0] in "ktm" or (v[0] == "a" and len(v[2]) == 1 and v[2][0][1]))

    def call_fn(self, fn, args, st, site=None, chain=(), fid=None, env=()):
        """inline a workspace function; -> [(St, value)]"""
        if time.time() - self.t0 > self.budget:
            raise Budget(f"analysis budget exceeded in {fn.p}")
        cnt = sum(1 for x in chain if x == fn.h)
        if (cnt >= 2 and (cnt >= 8 or not any(self.decided(st, a) for a in args))) or len(chain) > self.max_depth:
            l = frozenset()
            for a in args:
                l |= self.labels(a, st)
            return [(st, SL(l))]
        self.analysed[fn.p] = self.analysed.get(fn.p, 0) + 1
        nf = self.newfid(fid, site, fn.h, env) if env else self.newfid(fid, site, fn.h)
        if env:
            self.tenv[nf] = env
        return self.run(fn.body, args, st, nf, chain + (fn.h,))

    def flagkey(self, st, fid, body, live, loop=False):
        f = st.fr.get(fid)
        if not f:
            return ()
        r = []
        df = dropflags(body)
        for l in f:
            if not isinstance(l, int) or l not in live or l in df:
                continue
            v = f[l]
            if v is None:
                continue
            if v[0] == "a" and len(v[2]) == 1 and v[1] in (OPTION, RESULT, CF):
                i = v[2][0][1][0] if v[2][0][1] else None
                if i is not None and i[0] == "a" and len(i[2]) == 1 and i[1] in (OPTION, RESULT, CF):
                    r.append((l, v[2][0][0], i[2][0][0]))
                else:
                    r.append((l, v[2][0][0]))
            elif v[0] == "k" and body.locals[l]["k"] == "bool":
                r.append((l, v[1]))
            elif loop and v[0] == "r" and len(v[1]) == 1 and body.locals[l]["s"].endswith("NestedAttrType"):
                r.append((l, "p", str(next(iter(v[1])))))
            elif v[0] == "t" and isit(body.locals[l]):
                r.append((l, "n", len(v[1])))
            elif v[0] == "k" and body.locals[l]["s"] == "usize" and isinstance(v[1], int) and v[1] < 64:
                r.append((l, "u", v[1]))
            elif v[0] == "a" and v[1] in ("json::MapAccess", "json::SeqAccess") and v[2][0][1][0][0] == "t":
                r.append((l, "j", len(v[2][0][1][0][1])))
            elif loop and v[0] in ("k", "s", "cat") and body.locals[l]["s"] == "alloc::string::String" and self.models.unique(self, st, v):
                r.append((l, "x", repr(v)))
            elif loop and v[0] == "t" and body.locals[l]["s"].startswith("alloc::vec::Vec<"):
                r.append((l, "v", len(v[1])))
            elif loop and v[0] == "t" and "[u8]" in body.locals[l]["s"]:
                r.append((l, "v", tuple(len(x[1]) if x is not None and x[0] == "t" else -1 for x in v[1]) if v[1] and v[1][0] is not None and v[1][0][0] == "t" else len(v[1])))
            elif v[0] == "a" and v[1].startswith("core::ops::range::Range") and v[2][0][1] and v[2][0][1][0] and v[2][0][1][0][0] == "k":
                r.append((l, "r", v[2][0][1][0][1]))
        r.sort()
        return tuple(r)

    def joinst(self, a, b):
        """join b into a; -> (state, changed)"""
        ch = False
        n = None
        for fid, fb in b.fr.items():
            fa = a.fr.get(fid)
            if fa is fb:
                continue
            if fa is None:
                if n is None:
                    n = a.copy()
                n.fr[fid] = fb
                ch = True
                continue
            g = None
            for k, vb in fb.items():
                va = fa.get(k)
                if va is vb or va == vb:
                    continue
                j = self.join(va, vb)
                if j != va:
                    if g is None:
                        g = dict(fa)
                    g[k] = j
            if g is not None:
                if n is None:
                    n = a.copy()
                n.fr[fid] = g
                ch = True
        return (n or a), ch

    def run(self, body, args, st, fid, chain, keep=False):
        live, addr, dd = liveness(body)
        order = rpo(body)
        lp = inloop(body)
        st = st.copy()
        st.fr.pop(fid, None)
        fr = {}
        for i in range(body.argc):
            fr[i + 1] = args[i] if i < len(args) else TOP
        st.fr[fid] = fr
        st.own.add(fid)
        ins = {}       # (bb, tok, flags) -> St
        parts = {}     # (bb, tok) -> set of flags
        visits = {}
        heap = []
        pend = set()
        exits = {}

        def push(bb, s):
            f = s.fr.get(fid)
            lv = live[bb]
            keepset = lv | addr
            extra = set()
            for x in lv:
                if x in dd:
                    extra |= dd[x]
            if f and any(k not in keepset and k not in extra for k in f if isinstance(k, int)):
                s.fr[fid] = {k: v for k, v in f.items() if not isinstance(k, int) or k in keepset or k in extra}
                s.own.discard(fid)
            fl = self.flagkey(s, fid, body, keepset if bb in lp else lv, bb in lp)
            pk = (bb, s.tok)
            ps = parts.setdefault(pk, set())
            if fl not in ps and len(ps) >= self.part_limit:
                fl = ()
            ps.add(fl)
            key = (bb, s.tok, fl)
            cur = ins.get(key)
            if cur is None:
                ins[key] = s.copy()
            else:
                j, ch = self.joinst(cur, s)
                if not ch:
                    return
                vc = visits.get(key, 0)
                if vc > 30:
                    j = self.widen(cur, j, fid)
                ins[key] = j
            if key not in pend:
                pend.add(key)
                heapq.heappush(heap, (order.get(bb, 9999), len(pend), str(key[1:]), key))

        push(0, st)
        while heap:
            _, _, _, key = heapq.heappop(heap)
            if key not in pend:
                continue
            pend.discard(key)
            visits[key] = visits.get(key, 0) + 1
            if visits[key] > 200:
                raise Budget(f"no fixpoint in {body.fn.p} bb{key[0]}")
            self.steps += 1
            if self.steps % 500 == 0 and time.time() - self.t0 > self.budget:
                raise Budget(f"analysis budget exceeded in {body.fn.p}")
            bb = key[0]
            s = ins[key].copy()
            for s2, nb in self.block(s, fid, body, bb, chain):
                if nb == "ret":
                    v = s2.get(fid, 0)
                    if v is None:
                        if body.locals[0]["s"] == "()":
                            v = UNIT
                        else:
                            # uninhabited / undefined return: nothing flows
                            v = UNIT if body.locals[0]["k"] == "tuple" and not body.locals[0].get("a") else None
                    sig = None
                    if v is not None and v[0] == "a" and len(v[2]) == 1 and v[1] in (OPTION, RESULT, CF):
                        sig = v[2][0][0]
                    elif v is not None and v[0] == "k":
                        sig = v[1]
                    if not keep:
                        s2.fr.pop(fid, None)
                    ek = (s2.tok, sig)
                    if ek in exits:
                        os, ov = exits[ek]
                        js, _ = self.joinst(os, s2)
                        exits[ek] = (js, self.join(ov, v))
                    else:
                        exits[ek] = (s2, v)
                else:
                    push(nb, s2)
        return list(exits.values())

    def widen(self, old, new, fid):
        n = new.copy()
        for f, d in new.fr.items():
            o = old.fr.get(f)
            if o is d or o is None:
                continue
            g = dict(d)
            for k, v in d.items():
                if o.get(k) != v and v is not None:
                    l = self.labels(v)
                    if v[0] in ("a", "c", "t", "or", "m"):
                        g[k] = self.cut(v, 4)
                    elif v[0] in ("cat", "k"):
                        g[k] = ("s", l)
            n.fr[f] = g
        return n

    def cut(self, v, d):
        if v is None or v[0] in ("s", "k", "r", "fn", "d", "p"):
            return v
        if d == 0 or v[0] == "cat":
            return SL(self.labels(v))
        if v[0] == "a":
            return ("a", v[1], tuple((i, tuple(self.cut(x, d - 1) for x in fs)) for i, fs in v[2]))
        if v[0] == "t":
            return ("t", tuple(self.cut(x, d - 1) for x in v[1]))
        if v[0] == "c":
            return ("c", self.cut(v[1], d - 1), self.cut(v[2], d - 1), v[3])
        if v[0] == "m":
            return self.cut(self.tocol(v), d)
        return v

    def block(self, st, fid, body, bb, chain):
        """execute one block; yields (state, next block | 'ret')"""
        stm, t, cl = body.blocks[bb]
        for s in stm:
            if s[0] == "=":
                p = s[1]
                v = self.rvalue(st, fid, s[2], body, body.locals[p[0]])
                if not p[1]:
                    st.set(fid, p[0], v)
                    # a box copied out of a reference only to reach what it owns: keep pointing at the original
                    lt = body.locals[p[0]]
                    if lt["k"] == "adt" and lt["p"] == BOX:
                        r = s[2]
                        if r[0] == "use" and r[1][0] == "c" and r[1][1][1]:
                            self.boxalias[(fid, p[0])] = self.place(st, fid, r[1][1])
                        else:
                            self.boxalias.pop((fid, p[0]), None)
                else:
                    tgs = self.place(st, fid, p)
                    if self.hooks and tgs:
                        for h in self.hooks:
                            w = getattr(h, "on_write", None)
                            if w:
                                w(self, st, tgs, v, s[3], body, fid)
                    self.store(st, tgs, v)
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "return":
            return [(st, "ret")]
        if k == "drop":
            return [(st, t[2])]
        if k == "assert":
            v = self.operand(st, fid, t[1], body)
            if v is not None and v[0] == "k" and isinstance(v[1], int) and isinstance(t[2], (bool, int)) and bool(v[1]) != bool(t[2]):
                what = str(t[4]).split("(")[0].split(",")[0].strip("[]'\" ") or "assertion"
                self.panics[(body.fn.p, what, t[5] if len(t) > 5 and isinstance(t[5], str) else "")] = what
                return []
            return [(st, t[3])]
        if k == "switch":
            return self.switch(st, fid, body, t)
        if k == "call":
            return self.call_term(st, fid, body, bb, t, chain)
        return []

    def switch(self, st, fid, body, t):
        v = self.operand(st, fid, t[1], body)
        if v is None:
            return []
        isbool = False
        lp = None
        if t[1][0] in ("c", "m"):
            pl = t[1][1]
            if not pl[1]:
                lp = pl[0]
                isbool = body.locals[lp]["k"] == "bool"
        if v[0] == "k":
            for val, b in t[2]:
                if val == v[1]:
                    return [(st, b)]
            return [(st, t[3])]
        out = []
        if v[0] == "d":
            seen = set()
            for val, b in t[2]:
                vs = self.variants_for(v[2], val)
                seen |= vs
                s2 = st.copy()
                if self.refine_variant(s2, v[1], v[2], vs, True):
                    out.append((s2, b))
            s2 = st.copy()
            if body.blocks[t[3]][1][0] != "unreachable" and self.refine_variant(s2, v[1], v[2], frozenset(seen), False):
                out.append((s2, t[3]))
            return out
        if v[0] == "p" or isbool:
            vals = dict(t[2])
            f = vals.get(0, t[3])
            tr = vals.get(1, t[3])
            for truth, b in ((False, f), (True, tr)):
                s2 = st.copy()
                if self.assume(s2, v, truth):
                    if lp is not None and isbool:
                        s2.set(fid, lp, K(1 if truth else 0))
                    out.append((s2, b))
            return out
        for val, b in t[2]:
            out.append((st.copy(), b))
        if body.blocks[t[3]][1][0] != "unreachable":
            out.append((st, t[3]))
        return out

    def call_term(self, st, fid, body, bb, t, chain):
        _, fo, ao, dest, target, sp = t
        args = [self.operand(st, fid, a, body) for a in ao]
        if fo[0] == "k" and "fn" in fo[1]:
            c = fo[1]["fn"]
            self.mutargs = tuple(i for i, a in enumerate(ao) if a[0] != "k" and not a[1][1] and body.locals[a[1][0]]["k"] == "ref" and body.locals[a[1][0]]["m"])
            rs = self.call(st, c, args, (body.fn.h, bb), fid, chain, body, body.locals[dest[0]] if not dest[1] else None, sp)
        else:
            f = self.operand(st, fid, fo, body)
            rs = self.invoke(st, f, args, (body.fn.h, bb), fid, chain)
        out = []
        if target is None:
            return out
        for s2, v in rs:
            if not dest[1]:
                s2.set(fid, dest[0], v)
            else:
                tgs = self.place(s2, fid, dest)
                for h in self.hooks:
                    w = getattr(h, "on_write", None)
                    if w:
                        w(self, s2, tgs, v, sp, body, fid)
                self.store(s2, tgs, v)
            out.append((s2, target))
        return out

    def call(self, st, c, args, site, fid, chain, body=None, dty=None, sp=None):
        """call the function described by callee info c; -> [(state, value)]"""
        st = st.copy()
        if fid in self.tenv:
            c = self.mono(c, fid)
            dty = self.subst(dty, self.tenv[fid])
        cx = Ctx()
        cx.ip, cx.st, cx.c, cx.args, cx.site, cx.fid, cx.chain, cx.body, cx.dest_ty = self, st, c, args, (site, sp), fid, chain, body, dty
        cx.mut, self.mutargs = self.mutargs, ()
        cx.np = c["np"] if "np" in c else norm(c["p"])
        cx.rp = c.get("rp") or c["p"]
        for h in self.hooks:
            f = getattr(h, "on_call", None)
            if f:
                r = f(cx)
                if r is not None:
                    return r
        for a in args:
            if a is None:
                return []       # an argument no value reaches
        if c.get("tr") and c["tr"].split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            f = self.deref(st, args[0]) if args[0][0] == "r" else args[0]
            a = args[1]
            al = list(a[1]) if a is not None and a[0] == "t" else [a]
            return self.invoke(st, f, al, site, fid, chain)
        h = c.get("rh") or c["h"]
        fn = self.F.fns.get(h)
        if fn is not None and fn.isfn and not (fn.trait_default and c.get("rk") == "virtual"):
            m = self.models.override(self, cx, fn)
            if m is not None:
                return m
            return self.call_fn(fn, args, st, (site, h), chain, fid, self.envof(fn, c))
        ct = self.ctors.get(cx.np)
        if ct and "{constructor" not in cx.np and not c.get("tr"):
            return [(st, ("a", ct[0], ((ct[1], tuple(args)),)))]
        # dynamic / unresolved trait call on workspace types
        if c.get("tr") and ((c["tr"], c.get("m")) in self.F.impls or (fn is not None and fn.trait_default)):
            r = self.dispatch(st, c, args, site, fid, chain, cx)
            if r is not None:
                return r
        r = self.models.model(self, cx)
        if r is not None:
            return r
        return self.models.default(self, cx)

    def dispatch(self, st, c, args, site, fid, chain, cx):
        impls = self.F.impls.get((c["tr"], c["m"]), ())
        v = self.deref(st, args[0]) if args else None
        if v is None or c["tr"].startswith("serde::"):
            return None
        args = list(args)
        for i in range(len(args) if c["tr"].startswith("core::cmp::") else 1):
            for _ in range(8):            # &&T -> &T
                if args[i] is None or args[i][0] != "r" or len(args[i][1]) != 1:
                    break
                x = self.load(st, next(iter(args[i][1])))
                if x is None or x[0] != "r":
                    break
                args[i] = x
        al = [v] if v[0] != "or" else list(v[1])
        if all(x[0] == "a" for x in al):
            out = []
            for x in al:
                fns = [f for t, f in impls if t["k"] == "adt" and t["p"] == x[1]]
                if not fns:         # Box<dyn Tr>, transparent here: the impl for boxes of a trait the value implements
                    fns = [f for t, f in impls if t["k"] == "adt" and t["p"] == "alloc::boxed::Box" and t["a"] and t["a"][0]["k"] == "dyn"
                           and any(u["k"] == "adt" and u["p"] == x[1] for u in self.F.trait_impls(t["a"][0]["p"]))]
                if not fns and any(t["k"] == "adt" and t["p"] == x[1] for t in self.F.trait_impls(c["tr"])):
                    fns = [f for f in [self.F.fns.get(c["h"])] if f is not None and f.trait_default]
                if not fns:
                    continue
                a2 = list(args)
                if args[0][0] != "r":
                    a2[0] = x
                if len(al) > 1 and args[0][0] == "r":
                    # the method runs on one member of the union: run it on a private copy, merge effects back
                    s2 = st.copy()
                    tf = self.newfid("or", fid, site, x[1])
                    s2.fr[tf] = {0: x}
                    a2[0] = ("r", frozenset([(tf, 0, ())]))
                    for s3, r in self.call_fn(fns[0], a2, s2, (site, fns[0].h), chain, fid):
                        nx = s3.get(tf, 0)
                        s3.fr.pop(tf, None)
                        if nx != x:
                            for tg in args[0][1]:
                                if tg[0] != "S":
                                    cur = s3.get(tg[0], tg[1])
                                    s3.set(tg[0], tg[1], self.wsteps(cur, tg[2], nx, False))
                        out.append((s3, self.reroot(r, tf, args[0][1])))
                else:
                    out.extend(self.call_fn(fns[0], a2, st, (site, fns[0].h), chain, fid))
            if out:
                return self.compact(out)
            return None
        return None

    def reroot(self, v, fid, tgs, depth=0):
        """references into the private copy of a union member become references into the union itself"""
        if v is None or depth > 12:
            return v
        if v[0] == "r":
            if not any(t[0] == fid for t in v[1]):
                return v
            o = set()
            for t in v[1]:
                if t[0] != fid:
                    o.add(t)
                else:
                    for g in tgs:
                        o.add((g[0], g[1], tuple(g[2]) + tuple(t[2])) if g[0] != "S" else g)
            return ("r", frozenset(o))
        if v[0] == "a":
            return ("a", v[1], tuple((i, tuple(self.reroot(x, fid, tgs, depth + 1) for x in fs)) for i, fs in v[2]))
        if v[0] == "t":
            return ("t", tuple(self.reroot(x, fid, tgs, depth + 1) for x in v[1]))
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.reroot(x, fid, tgs, depth + 1) for x in v[2]))
        if v[0] == "c":
            return ("c", self.reroot(v[1], fid, tgs, depth + 1), self.reroot(v[2], fid, tgs, depth + 1), v[3])
        return v

    def compact(self, outs):
        m = {}
        for s, v in outs:
            sig = None
            if v is not None and v[0] == "a" and len(v[2]) == 1 and v[1] in (OPTION, RESULT, CF):
                sig = v[2][0][0]
            k = (s.tok, sig)
            if k in m:
                js, _ = self.joinst(m[k][0], s)
                m[k] = (js, self.join(m[k][1], v))
            else:
                m[k] = (s, v)
        return list(m.values())

    def invoke(self, st, f, args, site, fid, chain):
        """call a callable value"""
        f = self.deref(st, f)
        if f is None:
            return []
        if f[0] == "clo":
            fn = self.F.fns.get(f[1])
            nat = self.models.NATIVE.get(f[1]) if fn is None else None
            if nat is not None:
                return nat(self, st, f, args, site, fid, chain)
            if fn is None:
                l = self.labels(f, st)
                for a in args:
                    l |= self.labels(a, st)
                return [(st, SL(l))]
            envt = fn.body.locals[1]
            st = st.copy()
            cf = None
            if envt["k"] == "ref":
                cf = self.newfid("clo", fid, site, f[1])
                st.fr[cf] = {0: f}
                env = ("r", frozenset([(cf, 0, ())]))
            else:
                env = f
            last = f[2][-1] if f[2] else None
            te = last[1][1] if last is not None and last[0] == "k" and isinstance(last[1], tuple) and last[1][0] == "tenv" else ()
            outs = self.call_fn(fn, [env] + list(args), st, (site, "clo", f[1]), chain, fid, te)
            if cf is not None:
                for s, v in outs:
                    s.fr.pop(cf, None)
            return outs
        if f[0] == "fn":
            c = Ip._fnvals[f[1]]
            return self.call(st, c, list(args), (site, "fn"), fid, chain)
        if f[0] == "or":
            out = []
            for x in f[1]:
                out.extend(self.invoke(st.copy(), x, args, (site, x[1]), fid, chain))
            return self.compact(out)
        l = self.labels(f, st)
        for a in args:
            l |= self.labels(a, st)
        return [(st, SL(l))]

    # entry helpers -----------------------------------------------------
    def alloc(self, st, name, v):
        st.fr[("E", name)] = {0: v}
        return ("r", frozenset([(("E", name), 0, ())]))

    def peek(self, st, ref):
        return self.deref(st, ref, 1)
