"""Loads the facts the rustc driver wrote: types, ADTs, functions (MIR), impl tables."""
import json, glob, os, re, sys

STRIP = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>")


def norm(p):
    """callee path without turbofish generics / lifetimes"""
    if p is None:
        return None
    q = p
    for _ in range(4):
        r = STRIP.sub("", q)
        if r == q:
            break
        q = r
    return q


class Fn:
    __slots__ = ("h", "p", "np", "kind", "isfn", "parent", "body", "prom", "pub", "self_ty", "name",
                 "trait", "targs", "derived", "crate", "trait_default", "gen", "_live", "_addr", "_preds")

    def __repr__(self):
        return f"<Fn {self.p}>"


class Body:
    __slots__ = ("argc", "locals", "names", "blocks", "sp", "_live", "fn", "_flags", "_rpo", "_loopheads")


class Facts:
    def __init__(self, d):
        self.dir = d
        self.types = {}      # string -> type dict
        self.adts = {}       # path -> adt
        self.fns = {}        # hash -> Fn
        self.by_path = {}
        self._ti = {}    # path -> [Fn]
        self.impls = {}      # (trait, method) -> [(self type, Fn)]
        self.crates = []
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            self.load(f)
        self.closures_of = {}
        for fn in self.fns.values():
            if fn.kind == "Closure":
                self.closures_of.setdefault(fn.parent, []).append(fn)

    def load(self, f):
        d = json.load(open(f))
        self.crates.append(d["crate"])
        T = []
        for t in d["types"]:
            if t is None:
                t = {"k": "other", "s": "?"}
            key = t["s"]
            if t["k"] == "fndef" or t["k"] == "closure":
                key = t["s"] + "#" + t["h"]
            T.append(self.types.setdefault(key, t))
        # second pass: link children (types may be shared between crates)
        for raw, t in zip(d["types"], T):
            if t.get("_linked"):
                continue
            t["_linked"] = True
            if "t" in t and isinstance(t["t"], int):
                t["t"] = T[t["t"]]
            if "a" in t:
                t["a"] = [T[i] if isinstance(i, int) else i for i in t["a"]]
        for a in d["adts"]:
            p = a["p"]
            if p in self.adts and not a["local"]:
                continue
            for v in a["v"]:
                for fl in v["f"]:
                    fl["t"] = T[fl["t"]]
            self.adts[p] = a
        for x in d["fns"]:
            fn = Fn()
            fn.h, fn.p, fn.kind, fn.isfn, fn.parent = x["h"], x["p"], x["kind"], x["fn"], x["parent"]
            fn.np = norm(fn.p)
            fn.crate = d["crate"]
            fn.pub = x["pub"]
            fn.self_ty = T[x["self"]] if "self" in x else None
            fn.name = x.get("name") or fn.p.split("::")[-1]
            fn.trait = x.get("trait")
            fn.targs = [T[i] for i in x.get("targs", [])]
            fn.derived = x.get("derived", False)
            fn.trait_default = x.get("trait_default")
            fn.gen = tuple(x.get("gen", ()))
            fn.body = self.body(x["body"], T, fn)
            fn.prom = [self.body(b, T, fn) for b in x["prom"]]
            self.fns[fn.h] = fn
            self.by_path.setdefault(fn.p, []).append(fn)
            if fn.trait:
                self.impls.setdefault((fn.trait, fn.name), []).append((fn.self_ty, fn))

    def trait_impls(self, tr):
        """self types of every implementation of a trait that has at least one method body of its own"""
        r = self._ti.get(tr)
        if r is None:
            r = self._ti[tr] = [t for (x, m), l in self.impls.items() if x == tr for t, _ in l]
        return r

    def body(self, b, T, fn):
        o = Body()
        o.fn = fn
        o.argc = b["argc"]
        o.locals = [T[i] for i in b["locals"]]
        o.names = b["names"]
        o.sp = b["sp"]
        o._live = None
        o._flags = None
        o._rpo = None
        o._loopheads = None

        def place(p):
            steps = []
            for e in p[1]:
                if e[0] == ".":
                    steps.append((".", e[1], T[e[2]], e[3]))
                elif e[0] == "v":
                    steps.append(("v", e[1], T[e[2]]))
                else:
                    steps.append(tuple(e))
            return (p[0], tuple(steps))

        def callee(c):
            c = dict(c)
            c["a"] = [T[i] for i in c["a"]]
            if "ra" in c:
                c["ra"] = [T[i] for i in c["ra"]]
            c["np"] = norm(c["p"])
            c["nrp"] = norm(c.get("rp"))
            return c

        def op(x):
            if x[0] in ("c", "m"):
                return (x[0], place(x[1]))
            if x[0] == "k":
                c = dict(x[1])
                if "fn" in c:
                    c["fn"] = callee(c["fn"])
                if "t" in c:
                    c["t"] = T[c["t"]]
                return ("k", c)
            return ("?",)

        def rv(r):
            k = r[0]
            if k in ("use", "repeat"):
                return (k, op(r[1]))
            if k in ("ref", "reborrow"):
                return ("ref", place(r[1]), r[2])
            if k == "cast":
                return (k, r[1], op(r[2]), T[r[3]])
            if k == "bin":
                return (k, r[1], op(r[2]), op(r[3]))
            if k == "un":
                return (k, r[1], op(r[2]))
            if k == "discr":
                return (k, place(r[1]), T[r[2]])
            if k == "agg":
                kk = r[1]
                if kk[0] == "array":
                    kk = ("array", T[kk[1]])
                return (k, tuple(kk), [op(x) for x in r[2]])
            return tuple(r)

        bl = []
        for st, t, cl in b["blocks"]:
            ss = []
            for s in st:
                if s[0] == "=":
                    ss.append(("=", place(s[1]), rv(s[2]), s[3]))
                else:
                    ss.append(("sd", place(s[1]), s[2]))
            k = t[0]
            if k == "switch":
                t = (k, op(t[1]), [tuple(x) for x in t[2]], t[3])
            elif k == "call":
                t = (k, op(t[1]), [op(x) for x in t[2]], place(t[3]), t[4], t[5])
            elif k == "drop":
                t = (k, place(t[1]), t[2])
            elif k == "assert":
                t = (k, op(t[1]), t[2], t[3], t[4], t[5])
            else:
                t = tuple(t)
            bl.append((ss, t, cl))
        o.blocks = bl
        return o

    # ---- lookup helpers
    def fn(self, path):
        """the function with this exact path, or None"""
        c = self.by_path.get(path) or []
        return c[0] if len(c) == 1 else (c[0] if c else None)

    def find(self, suffix, crate=None, trait=None):
        r = []
        for fn in self.fns.values():
            if crate and fn.crate != crate:
                continue
            if trait and fn.trait != trait:
                continue
            if fn.p == suffix or fn.p.endswith("::" + suffix):
                r.append(fn)
        return sorted(r, key=lambda f: f.p)

    def method(self, adt_suffix, name, trait=None):
        """method `name` of the ADT whose path ends with adt_suffix (trait: path suffix, None = inherent)"""
        r = []
        for fn in self.fns.values():
            if fn.self_ty is None or fn.name != name:
                continue
            sp = fn.self_ty.get("p") if fn.self_ty["k"] == "adt" else fn.self_ty["s"]
            if not (sp == adt_suffix or (sp or "").endswith("::" + adt_suffix)):
                continue
            if trait is None:
                if fn.trait is None:
                    r.append(fn)
            elif fn.trait and (fn.trait == trait or fn.trait.endswith("::" + trait)):
                r.append(fn)
        return sorted(r, key=lambda f: f.p)

    def adt(self, suffix):
        r = [p for p in self.adts if p == suffix or p.endswith("::" + suffix)]
        r = sorted(r, key=len)
        return self.adts[r[0]] if r else None


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[3]]
    return []


def fmt_place(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e[0] == "*":
            s = f"(*{s})"
        elif e[0] == ".":
            s = f"{s}.{e[1]}"
        elif e[0] == "v":
            s = f"({s} as #{e[1]})"
        else:
            s = f"{s}[{e[1:]}]"
    return s


def fmt_op(o):
    if o[0] in ("c", "m"):
        return ("move " if o[0] == "m" else "") + fmt_place(o[1])
    if o[0] == "k":
        c = o[1]
        if "fn" in c:
            f = c["fn"]
            return "fn " + (f.get("rp") or f["p"]) + ("" if f.get("rp") == f["p"] or not f.get("rp") else " {" + f["p"] + "}") + "<" + ",".join(a["s"] for a in f["a"]) + ">"
        if "str" in c:
            return repr(c["str"])
        if "v" in c:
            return str(c["v"])
        if "prom" in c:
            return f"prom{c['prom']}"
        return "const " + str({k: v for k, v in c.items() if k != "t"}) + ":" + c["t"]["s"]
    return "?"


def show(body):
    out = []
    for n, p in body.names:
        out.append(f"  debug {n} => {p}")
    for i, t in enumerate(body.locals):
        out.append(f"  _{i}: {t['s']}")
    for i, (st, t, cl) in enumerate(body.blocks):
        if cl:
            continue
        out.append(f" bb{i}:")
        for s in st:
            if s[0] == "=":
                r = s[2]
                rr = r[0] + " " + " ".join(
                    fmt_op(x) if isinstance(x, tuple) and x and x[0] in ("c", "m", "k") else
                    (fmt_place(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) else
                     ("[" + ", ".join(fmt_op(y) for y in x) + "]" if isinstance(x, list) else
                      (x["s"] if isinstance(x, dict) else str(x)))) for x in r[1:])
                out.append(f"    {fmt_place(s[1])} = {rr}")
            else:
                out.append(f"    discr({fmt_place(s[1])}) = {s[2]}")
        k = t[0]
        if k == "call":
            out.append(f"    {fmt_place(t[3])} = call {fmt_op(t[1])}({', '.join(fmt_op(x) for x in t[2])}) -> {t[4]}   // {t[5]}")
        elif k == "switch":
            out.append(f"    switch {fmt_op(t[1])} {t[2]} else {t[3]}")
        else:
            out.append("    " + str(t[:3]))
    return "\n".join(out)


if __name__ == "__main__":
    F = Facts(sys.argv[1])
    pat = sys.argv[2]
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if re.search(pat, fn.p):
            print("fn", fn.p, fn.kind, fn.h)
            if len(sys.argv) > 3:
                print(show(fn.body))
                for i, p in enumerate(fn.prom):
                    print(" promoted", i)
                    print(show(p))
