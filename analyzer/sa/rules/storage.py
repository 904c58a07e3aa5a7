"""What is put into a storage is what is got from it, for every implementation of the storage trait."""
from base import *
import storemodels as sm

DS = "oca_rs::data_storage::DataStorage"
NS = "oca_rs::data_storage::Namespace"
DIR = K("/work/data")
OTHER = K("/work/other")


def backends(r):
    ts = sorted({t["p"] for t, _ in r.F.impls.get((DS, "get"), []) if t.get("k") == "adt" and t["p"].startswith("oca_rs::")})
    if not {"oca_rs::data_storage::" + x for x in ("InMemoryDataStorage", "SledDataStorage", "FileSystemStorage")} <= set(ts):
        raise Missing(f"implementations of {DS}: {ts}")
    return ts


class Store:
    """one storage value and the disk it works on"""

    def __init__(self, r, t):
        self.r, self.t = r, t
        self.disk = ("k", (("dir", ("/",)),))
        self.v = None

    def call(self, key, name, *args, rev=False, on=None):
        """-> the value returned; the storage and the disk are updated"""
        r = self.r
        f = r.method(self.t, name, trait=DS)
        self.w = r.where(f)
        st = St()
        st.fr["DISK"] = {0: self.disk}
        outs = r.run(f, ([Ref(on or self.v, "self")] if name != "new" else []) + list(args), st=st, hash_rev=rev)
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
        un = sorted(k for k in r.ip.unmodelled if k.startswith("disk:"))
        r.ob(key + ":total", not pn, self.w, f"{name} can panic: {pn}")
        r.ob(key + ":decided", not un, self.w, f"operations outside of what is decided here: {un}")
        es = [(v, E(s, "self") if name != "new" else None, s.fr.get("DISK", {}).get(0)) for s, v in outs]
        if not r.ob(key + ":determined", len(es) > 0 and all(same_val(v, es[0][0]) and same_val(e, es[0][1]) and d == es[0][2] for v, e, d in es), self.w,
                    f"{name} must do the same on every path: {[pv(r.F, v)[:200] for v, _, _ in es]}"):
            return None
        if name == "insert":
            self.v = es[0][1]
        self.disk = es[0][2]
        return es[0][0]

    def open(self, key, d=DIR):
        if self.v is None:
            self.v = self.call(key + ":new", "new")
        new = self.call(key + ":config", "config", mp((K("path"), d)) if d is not None else mp())
        self.v = new
        return new

    def get(self, key, ns, k):
        return self.call(key, "get", variant(self.r.F, NS, ns), k)

    def put(self, key, ns, k, v):
        x = self.call(key, "insert", variant(self.r.F, NS, ns), k, v)
        self.r.ob(key + ":stored", only(x, 0) is not None, self.w, f"must be stored: {pv(self.r.F, x)}")

    def all(self, key, ns, rev=False):
        return self.call(key, "get_all", variant(self.r.F, NS, ns), rev=rev)


def keys(r):
    a, b, s = S("!ka"), S("!kb"), S("!SAIDs")
    ks = {"word": a, "word2": b, "said": s, "operation": text("oca.", s, ".operation"), "metadata": text(s, ".metadata"), "slash": text(a, "/", b), "parent": text("../", b),
          "two-dots": K(".."), "dot": K("."), "empty": K(""), "hidden": text(".", a), "percent": text(a, "%2F", b), "percents": text(a, "%252F", b), "backslash": text(a, "\\", b), "space": text(a, " ", b),
          "letter": text(a, "é"), "percent-alone": K("%"), "percent25": K("%25"), "absolute": text("/", a), "deep": text("../../", a, "/../", b), "into-other": text("../oca/", a), "into-names": text("../oca_refs/", a),
          "dotted": text("%2E", a), "slash-end": text(a, "/"), "colon": text(a, ":", b),
          "upper": text(a, "Ab"), "lower": text(a, "ab"), "long": K("x" * 150 + "1" + "y" * 50), "longer": K("x" * 150 + "2" + "y" * 50), "blank-end": text(a, " "), "blank-start": text(" ", a), "line": text(a, "\n"), "tab": text(a, "\t", b),
          "composed": text(a, "e\u0301"), "dots-end": text(a, "."), "extension": text(a, ".json"), "extension2": text(a, ".tmp")}
    return ks


def exact_mode(fn):
    def g(r):
        sm.EXACT = True
        try:
            fn(r)
        finally:
            sm.EXACT = False
    g.__name__ = fn.__name__
    return g


def names_of(r):
    return [v["n"] for v in r.F.adts[NS]["v"]]


@exact_mode
def contract(r):
    F = r.F
    nss = names_of(r)
    ks = keys(r)
    quick = r.tier == "quick"
    for t in backends(r):
        n = t.split("::")[-1]
        key = "store:" + n
        # before it is opened: an error or an empty store, no panic
        s = Store(r, t)
        s.v = s.call(key + ":unopened:new", "new")
        if s.v is None:
            continue
        for op, x in (("get", s.get(key + ":unopened:get", "OCA", S("!ka"))), ("get_all", s.all(key + ":unopened:get_all", "OCA"))):
            r.ob(f"{key}:unopened:{op}:answer", only(x, 1) is not None or x == variant(F, RESULT_, "Ok", NONE) or only(x, 0) == mp() or only(x, 0) == NONE, s.w, f"a storage that was not opened holds nothing: {pv(F, x)}")
        x = s.call(key + ":unopened:insert", "insert", variant(F, NS, "OCA"), S("!ka"), S("!v"))
        if only(x, 0) is not None:      # what it accepts it keeps
            y = s.get(key + ":unopened:kept", "OCA", S("!ka"))
            r.ob(f"{key}:unopened:kept:answer", only(only(y, 0), 1) == S("!v"), s.w, f"what was accepted must be kept: {pv(F, y)}")
        # opened
        s = Store(r, t)
        if s.open(key) is None:
            continue
        vals = {}
        for ns in nss:
            x = s.get(f"{key}:empty:{ns}", ns, S("!ka"))
            r.ob(f"{key}:empty:{ns}:none", only(x, 0) == NONE, s.w, f"nothing is stored yet: {pv(F, x)}")
            x = s.all(f"{key}:empty:{ns}:all", ns)
            r.ob(f"{key}:empty:{ns}:all:none", only(x, 0) == mp(), s.w, f"nothing is stored yet: {pv(F, x)}")
        some_ = nss if not quick else [x for x in nss if x in ("OCA", "OCAReferences", "OCAObjectsJSON")]
        for ns in nss:
            for kn, k in ks.items():
                if ns in some_ or kn in ("word", "said", "slash"):
                    vals[(ns, kn)] = S(f"!v{ns}.{kn}") if kn != "colon" else K("")
                    s.put(f"{key}:put:{ns}:{kn}", ns, k, vals[(ns, kn)])
                    if s.v is None or s.disk is None:
                        return
        check(r, key, s, ks, nss, vals, quick)
        # again: the latest value counts
        for ns, kn in (("OCA", "word"), ("OCAReferences", "slash"), ("OCAReferences", "parent"), ("OCAObjectsJSON", "said")):
            vals[(ns, kn)] = S(f"!w{ns}.{kn}")
            s.put(f"{key}:again:{ns}:{kn}", ns, ks[kn], vals[(ns, kn)])
        check(r, key + ":again", s, ks, nss, vals, True)
        inside(r, key, s)
        # another storage shares nothing; opening the same place again gives what is there
        o = Store(r, t)
        o.disk = s.disk
        if o.open(key + ":other", OTHER) is None:
            continue
        for ns in nss:
            x = o.get(f"{key}:other:{ns}", ns, ks["word"])
            r.ob(f"{key}:other:{ns}:none", only(x, 0) == NONE, o.w, f"nothing is stored in another place: {pv(F, x)}")
        o.put(f"{key}:other:put", "OCA", ks["word"], S("!other"))
        s.disk = o.disk
        check(r, key + ":besides", s, {"word": ks["word"], "said": ks["said"]}, nss, {k: v for k, v in vals.items() if k[1] in ("word", "said")}, True, exactly=False)
        if any(x[0] in ("file", "sled") for x in s.disk[1]):
            o = Store(r, t)
            o.disk = s.disk
            if o.open(key + ":reopened") is not None:
                check(r, key + ":reopened", o, ks, nss, vals, True)
            # configured for another place: that one counts
            o = Store(r, t)
            o.disk, o.v = s.disk, s.v
            if o.open(key + ":moved", OTHER) is not None:
                x = o.get(key + ":moved:get", "OCA", ks["word"])
                r.ob(key + ":moved:value", only(only(x, 0), 1) == S("!other"), o.w, f"the place configured last counts: {pv(F, x)}")
        # without a place
        o = Store(r, t)
        if o.open(key + ":nowhere", None) is not None:
            x = o.get(key + ":nowhere:get", "OCA", S("!ka"))
            r.ob(key + ":nowhere:answer", only(x, 1) is not None or only(x, 0) == NONE, o.w, f"a storage without a place holds nothing: {pv(F, x)}")


RESULT_ = "core::result::Result"


def check(r, key, s, ks, nss, vals, few, exactly=True):
    F = r.F
    for ns in nss:
        for kn, k in ks.items():
            want = vals.get((ns, kn))
            if want is None and few and kn not in ("word2", "two-dots"):
                continue
            x = s.get(f"{key}:get:{ns}:{kn}", ns, k)
            g = only(x, 0)
            if want is None:
                r.ob(f"{key}:get:{ns}:{kn}:none", g == NONE, s.w, f"nothing was stored under this key: {pv(F, x)}")
            else:
                r.ob(f"{key}:get:{ns}:{kn}:value", g is not None and same_val(only(g, 1), want), s.w, f"the value stored must be found: {pv(F, x)}, expected {pv(F, want)}")
    if not exactly:
        return
    for ns in nss:
        want = {ks[kn]: v for (n, kn), v in vals.items() if n == ns}
        for rev in (False, True):
            x = s.all(f"{key}:all:{ns}" + (":reversed" if rev else ""), ns, rev=rev)
            g = only(x, 0)
            if not r.ob(f"{key}:all:{ns}:listed", g is not None and g[0] == "m", s.w, f"what is stored must be listed: {pv(F, x)[:300]}"):
                break
            got = dict(g[1])
            bad = [pv(F, k) for k in set(got) | set(want) if got.get(k) is None or want.get(k) is None or not same_val(got[k], want[k])]
            r.ob(f"{key}:all:{ns}:same", not bad and len(g[1]) == len(want), s.w, f"exactly what is stored must be listed; wrong: {bad[:6]}")


def inside(r, key, s):
    """nothing is written outside of the place given"""
    d = sm.comps(DIR)
    out = [x for x in s.disk[1] if x[1][:len(d)] != d and not (x[0] == "dir" and d[:len(x[1])] == x[1])]
    r.ob(key + ":inside", not out, s.w, f"written outside of the place given: {[(x[0], x[1]) for x in out][:4]}")


@exact_mode
def histories(r):
    """insertions, questions and listings in turn, also in a second storage and after opening again; drawn from a fixed sequence"""
    import random
    F = r.F
    nss, ks = names_of(r), keys(r)
    for t in backends(r):
        for i in range(3 if r.tier == "quick" else 40):
            key = f"history:{t.split('::')[-1]}:{i}"
            rnd = random.Random(key)
            s = Store(r, t)
            if s.open(key) is None:
                continue
            kept, use = {}, {k: ks[k] for k in rnd.sample(sorted(set(ks) - {"long", "longer"}), 5) + ["empty"]}
            for j in range(14):
                ns, kn = rnd.choice(nss[:4] if rnd.random() < .7 else nss), rnd.choice(sorted(use))
                kj, op = f"{key}:{j}", rnd.random()
                if op < .5:
                    v = K("") if rnd.random() < .2 else S(f"!v{j}")
                    s.put(kj, ns, use[kn], v)
                    kept[(ns, kn)] = v
                    if s.v is None or s.disk is None:
                        break
                elif op < .6 and any(x[0] in ("file", "sled") for x in s.disk[1]):
                    o = Store(r, t)
                    o.disk = s.disk
                    if o.open(kj) is None:
                        break
                    s = o
                n2 = rnd.choice(nss)
                check(r, kj, s, {k: use[k] for k in rnd.sample(sorted(use), 3)} if op < .8 else use, [ns, n2] if n2 != ns else [ns], kept, False, exactly=False)
                check(r, kj, s, use, [n2], kept, True)


@exact_mode
def configs(r):
    F = r.F
    bs = sorted(p for p in F.adts if p.startswith("oca_rs::data_storage::") and p.endswith("ConfigBuilder"))
    r.ob("config:found", len(bs) >= 2, "", f"builders of configurations: {bs}")
    for b in bs:
        n = b.split("::")[-1]
        mk = r.method(b[:-len("Builder")], "build")
        outs = r.run(mk, [])
        if len(outs) != 1:
            raise Missing("one way to make a configuration")
        v = outs[0][1]
        fin = r.method(b, "finalize")
        outs = r.run(fin, [Ref(v, "self")])
        r.ob(f"config:{n}:none", bool(outs) and all(only(x, 1) is not None for _, x in outs) and not r.ip.panics, r.where(fin), "a configuration without a path is an error")
        outs = r.run(r.method(b, "path"), [v, DIR])
        w = outs[0][1] if len(outs) == 1 else None
        outs = r.run(fin, [Ref(w, "self")])
        r.ob(f"config:{n}:path", len(outs) == 1 and only(outs[0][1], 0) == mp((K("path"), DIR)), r.where(fin), f"the path given must be configured: {[pv(F, x) for _, x in outs]}")


DAG = "oca_dag_semantics::data_storage::DataStorage"


@exact_mode
def dag(r):
    """the storage of the DAG crate and the graph kept in it"""
    import random
    F = r.F
    ts = sorted({t["p"] for t, _ in F.impls.get((DAG, "get"), []) if t.get("k") == "adt"})
    r.ob("dag:found", ts, "", f"implementations of {DAG}: {ts}")

    def call(key, f, args, disk):
        st = St()
        st.fr["DISK"] = {0: disk}
        outs = r.run(f, args, st=st)
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
        un = sorted(k for k in r.ip.unmodelled if k.startswith("disk:"))
        r.ob(key + ":total", not pn, r.where(f), f"{f.name} can panic: {pn}")
        r.ob(key + ":decided", not un, r.where(f), f"operations outside of what is decided here: {un}")
        ds = {(canon(v), s.fr.get("DISK", {}).get(0)) for s, v in outs}
        if not r.ob(key + ":determined", len(ds) == 1, r.where(f), f"{f.name} must do the same on every path: {[pv(F, v)[:200] for _, v in outs]}"):
            return None, disk
        return outs[0][1], outs[0][0].fr["DISK"][0]

    ks = keys(r)
    for t in ts:
        n = t.split("::")[-1]
        op, get, put = (r.method(t, x, trait=DAG) for x in ("open", "get", "insert"))
        for i in range(2 if r.tier == "quick" else 20):
            rnd = random.Random(f"dag:{n}:{i}")
            use = {k: ks[k] for k in rnd.sample(sorted(set(ks) - {"long", "longer"}), 5)}
            kept, disk = {}, ("k", (("dir", ("/",)),))
            key = f"dag:{n}:{i}"
            s, disk = call(key + ":open", op, [DIR], disk)
            for j in range(10):
                k = rnd.choice(sorted(use))
                if rnd.random() < .6:
                    v = K("") if rnd.random() < .2 else S(f"!v{j}")
                    x, disk = call(f"{key}:{j}:insert", put, [Ref(s, "self"), use[k], v], disk)
                    r.ob(f"{key}:{j}:insert", only(x, 0) is not None, r.where(put), f"must be stored: {pv(F, x)}")
                    kept[k] = v
                elif rnd.random() < .5:
                    s, disk = call(f"{key}:{j}:open", op, [DIR], disk)
                for k in sorted(use):
                    x, _ = call(f"{key}:{j}:get:{k}", get, [Ref(s, "self"), use[k]], disk)
                    g = only(x, 0)
                    r.ob(f"{key}:{j}:get:{k}:value", same_val(g, some(kept[k]) if k in kept else NONE), r.where(get), f"expected {pv(F, kept.get(k, NONE))}, found {pv(F, x)}")
            o, d2 = call(key + ":other", op, [OTHER], disk)
            for k in sorted(use):
                x, _ = call(f"{key}:other:{k}", get, [Ref(o, "self"), use[k]], d2)
                r.ob(f"{key}:other:{k}:none", only(x, 0) == NONE, r.where(get), f"nothing was stored in another place: {pv(F, x)}")
        disk = ("k", (("dir", ("/",)),))
        s, disk = call(f"dag:{n}:all:open", op, [DIR], disk)
        for k in sorted(ks):
            x, _ = call(f"dag:{n}:before:{k}", get, [Ref(s, "self"), ks[k]], disk)
            r.ob(f"dag:{n}:before:{k}:none", only(x, 0) == NONE, r.where(get), f"nothing was stored under {pv(F, ks[k])} yet: {pv(F, x)}")
            x, disk = call(f"dag:{n}:put:{k}", put, [Ref(s, "self"), ks[k], S("!v-" + k)], disk)
        for k in sorted(ks):
            x, _ = call(f"dag:{n}:after:{k}", get, [Ref(s, "self"), ks[k]], disk)
            r.ob(f"dag:{n}:after:{k}:value", same_val(only(x, 0), some(S("!v-" + k))), r.where(get), f"what was stored under {pv(F, ks[k])} must be found: {pv(F, x)}")
        outs = r.run(get, [Ref(struct(F, t, "", db=NONE), "self"), S("!k")]) if [f["n"] for f in F.adts[t]["v"][0]["f"]] == ["db"] else []
        r.ob(f"dag:{n}:closed", all(only(v, 1) is not None for _, v in outs) and not r.ip.panics, r.where(get), "a storage that could not be opened answers with an error")
