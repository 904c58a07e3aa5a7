"""Byte vectors: constants and texts of known or symbolic length, kept exact through push / extend / slicing / from_utf8."""
from interp import K, S, SL, some, NONE, ok, err, TRUE, FALSE
import models as md
from models import M, m, ret, dv, panic, ptr, tyname, store, strval, tmp

CHUNK = "bytes::Text"       # bytes of one symbolic text
LEN = "bytes::Len"          # n + the lengths of texts
SAIDLEN = 44                # Blake3-256 in base64: what every SAID of this code base is


def width(s):
    """length of a symbolic text when known"""
    if s[0] == "s" and len(s[1]) == 1:
        l = next(iter(s[1]))
        if l.startswith(("!SAID", "!digest:")):
            return SAIDLEN
    return None


def issym(v):
    return v is not None and v[0] == "s" and md.sym(v)


def flat(v):
    """list of ints and symbols that the bytes consist of, or None"""
    if v is None:
        return None
    if v[0] == "k" and isinstance(v[1], str):
        return list(v[1].encode())
    if v[0] == "k" and isinstance(v[1], bytes):
        return list(v[1])
    if issym(v):
        return [v]
    if v[0] == "cat":
        out = []
        for x in v[1]:
            f = flat(x)
            if f is None:
                return None
            out += f
        return out
    if v[0] == "t":
        out = []
        for x in v[1]:
            if x is None:
                return None
            if x[0] == "k" and isinstance(x[1], int):
                out.append(x[1])
            elif x[0] == "a" and x[1] == CHUNK:
                out.append(x[2][0][1][0])
            else:
                return None
        return out
    return None


def wrap(f):
    return ("t", tuple(K(x) if isinstance(x, int) else ("a", CHUNK, ((0, (x,)),)) for x in f))


def totext(ip, f):
    r = K("")
    buf = []
    for x in f + [None]:
        if isinstance(x, int):
            buf.append(x)
            continue
        if buf:
            try:
                r = md.concat(ip, r, K(bytes(buf).decode()))
            except UnicodeDecodeError:
                return None
            buf = []
        if x is not None:
            r = md.concat(ip, r, x)
    return r


def length(f):
    n, syms = 0, []
    for x in f:
        w = 1 if isinstance(x, int) else width(x)
        if w is None:
            syms.append(x)
        else:
            n += w
    return lenv(n, syms)


def lenv(n, syms):
    return K(n) if not syms else ("a", LEN, ((0, (K(n), ("t", tuple(sorted(syms, key=repr))))),))


def lin(v):
    """(n, symbols) of a length"""
    if v is None:
        return None
    if v[0] == "k" and isinstance(v[1], int):
        return v[1], []
    if v[0] == "a" and v[1] == LEN:
        return v[2][0][1][0][1], list(v[2][0][1][1][1])
    return None


def arith(op, a, b):
    """sum / difference / comparison of lengths; None when not known"""
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    if op == "Add":
        return lenv(x[0] + y[0], x[1] + y[1])
    if op == "Sub":
        s = list(x[1])
        for t in y[1]:
            if t not in s:
                return None
            s.remove(t)
        return lenv(x[0] - y[0], s) if x[0] >= y[0] else None
    if sorted(x[1], key=repr) == sorted(y[1], key=repr):
        p, q = x[0], y[0]
        return K(int({"Eq": p == q, "Ne": p != q, "Lt": p < q, "Le": p <= q, "Gt": p > q, "Ge": p >= q}[op])) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else None
    if not x[1] and all(t in y[1] for t in x[1]) and op in ("Lt", "Le", "Gt", "Ge") and x[0] <= y[0] and op in ("Le", "Gt"):
        return K(int(op == "Le"))          # n <= n' + something
    if not y[1] and y[0] <= x[0] and op in ("Ge", "Lt"):
        return K(int(op == "Ge"))
    return None


def cutat(f, at):
    """split the list at an offset, None when it is not at a known boundary"""
    l = lin(at)
    if l is None:
        return None
    n, syms = l[0], list(l[1])
    i = 0
    while i < len(f) and (n or syms):
        x = f[i]
        if isinstance(x, int):
            if n < 1:
                return None
            n -= 1
        else:
            w = width(x)
            if w is not None:
                if n < w:
                    return None
                n -= w
            else:
                if x not in syms:
                    return None
                syms.remove(x)
        i += 1
    return None if n or syms else i


def ischunked(v):
    return v[0] == "t" and any(x is not None and x[0] == "a" and x[1] == CHUNK for x in v[1])


def byteat(v, i):
    """the byte at an offset (from the end when negative)"""
    f = flat(v)
    if f is None:
        return SL()
    if i < 0:
        if -i <= len(f) and all(isinstance(x, int) for x in f[i:]):
            return K(f[i])
        return SL()
    k = cutat(f, K(i))
    if k is None:
        return SL()
    return K(f[k]) if k < len(f) and isinstance(f[k], int) else SL() if k < len(f) else None


def subslice(v, lo, hi, from_end):
    """what a slice pattern `[.., rest @ .., ..]` binds; None when not known"""
    if v is None:
        return None
    if v[0] == "t" and not ischunked(v):
        n = len(v[1])
        return ("t", v[1][lo:n - hi if from_end else hi])
    f = flat(v)
    if f is None:
        return None
    a = cutat(f, K(lo))
    if from_end:
        if hi > len(f) or not all(isinstance(x, int) for x in f[len(f) - hi:]):
            return None
        b = len(f) - hi
    else:
        b = cutat(f, K(hi))
    return wrap(f[a:b]) if a is not None and b is not None and a <= b else None


def metalen(v):
    """length of a slice"""
    if v is None:
        return None
    if v[0] == "c" and v[1] is None and v[2] is None:
        return K(0)
    if v[0] == "t" and not ischunked(v):
        return K(len(v[1]))
    if v[0] in ("t", "k", "cat"):
        f = flat(v)
        if f is not None and not (mixed(f) and any(md.anytext(x) for x in f if not isinstance(x, int))):
            return length(f)
    return None


def bytesy(t):
    """is this type a collection of bytes"""
    s = t["s"].replace("&", "").replace("mut ", "").strip()
    s = s.split(" ", 1)[1] if s.startswith("'") else s
    return s in ("u8", "[u8]", "Vec<u8>", "std::vec::Vec<u8>", "alloc::vec::Vec<u8>") or s.startswith(("[u8;", "Vec<u8,", "std::vec::Vec<u8,", "alloc::vec::Vec<u8,"))


def over(*names):
    """model tried before the general one; returns None to fall through"""
    def deco(f):
        for n in names:
            old = M.get(n)

            def g(ip, cx, f=f, old=old):
                r = f(ip, cx)
                return r if r is not None else old(ip, cx)
            M[n] = g
        return f
    return deco


def mixed(f):
    return f is not None and any(not isinstance(x, int) for x in f)


@over("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::extend", "alloc::vec::Vec::append")
def extend(ip, cx):
    if not bytesy(cx.c["a"][0]):
        return None
    a = dv(cx, 0)
    b = dv(cx, 1)
    if a is None:
        a = K("")
    if a[0] == "c" and a[1] is None:
        a = ("t", ())
    if b is not None and b[0] == "a" and b[1] == "std::array":
        return None
    fa, fb = flat(a), flat(b)
    if fa is None or fb is None:
        return None
    store(cx, 0, wrap(fa + fb))
    if cx.np.endswith("append"):
        store(cx, 1, ("t", ()))
    return ret(cx, ("t", ()))


@over("alloc::vec::Vec::push")
def push(ip, cx):
    if not bytesy(cx.c["a"][0]):
        return None
    a, b = dv(cx, 0), dv(cx, 1)
    fa = flat(a)
    if fa is None or b is None or b[0] != "k" or not isinstance(b[1], int):
        return None
    store(cx, 0, wrap(fa + [b[1]]))
    return ret(cx, ("t", ()))


@over("alloc::vec::Vec::len", "core::slice::len", "alloc::string::String::len", "core::str::len")
def blen(ip, cx):
    v = dv(cx, 0)
    if v is not None and v[0] == "t" and not (cx.c["a"] and bytesy(cx.c["a"][0])):
        return None
    f = flat(v)
    if f is None:
        return None
    if mixed(f) and any(md.anytext(x) for x in f if not isinstance(x, int)):
        return None
    return ret(cx, length(f))


def rng(cx, v, t):
    """(from, to) offsets of a range argument; None for open ends"""
    n = tyname(t).split("::")[-1]
    if v is None or v[0] != "a" or len(v[2]) != 1:
        return None
    x = v[2][0][1]
    if n == "Range":
        return x[0], x[1]
    if n == "RangeFrom":
        return x[0], None
    if n == "RangeTo":
        return None, x[0]
    if n == "RangeFull":
        return None, None
    return None


def part(f, r):
    lo = 0 if r[0] is None else cutat(f, r[0])
    hi = len(f) if r[1] is None else cutat(f, r[1])
    if lo is None or hi is None or lo > hi:
        return None
    return f[lo:hi]


@over("core::ops::index::Index::index", "core::slice::get", "alloc::vec::Vec::get")
def index(ip, cx):
    a = cx.c["a"]
    v = dv(cx, 0)
    if v is None:
        return None
    byt = bytesy(a[0])
    if not byt or len(a) < 2:
        return None
    f = flat(v)
    if f is None:
        return None
    get = cx.np.endswith("get")
    i = dv(cx, 1)
    r = rng(cx, i, a[1])
    if r is None:
        k = cutat(f, i)
        if k is None or k >= len(f) or not isinstance(f[k], int):
            n, tot = lin(i), lin(length(f))
            if n is not None and not n[1] and not tot[1] and n[0] >= tot[0]:
                if get:
                    return ret(cx, NONE)
                panic(cx, "index")
                return []
            return None
        p = tmp(cx, "byte", K(f[k]))
        return ret(cx, some(p) if get else p)
    p = part(f, r)
    if p is None:
        for e in r:
            n, tot = lin(e) if e is not None else None, lin(length(f))
            if n is not None and not n[1] and not tot[1] and n[0] > tot[0]:
                if get:
                    return ret(cx, NONE)
                panic(cx, "index")
                return []
        return None
    return ret(cx, some(wrap(p)) if get else wrap(p))


@over("core::slice::first", "core::slice::last")
def first(ip, cx):
    if not bytesy(cx.c["a"][0]):
        return None
    f = flat(dv(cx, 0))
    if f is None:
        return None
    if not f:
        return ret(cx, NONE)
    x = f[0] if cx.np.endswith("first") else f[-1]
    if not isinstance(x, int):
        return None
    return ret(cx, some(tmp(cx, "byte", K(x))))


@over("core::slice::split_first", "core::slice::split_last")
def split_first(ip, cx):
    v = dv(cx, 0)
    if not bytesy(cx.c["a"][0]):
        return None
    f = flat(v)
    if f is None:
        return None
    if not f:
        return ret(cx, NONE)
    at, rest = (f[0], f[1:]) if cx.np.endswith("first") else (f[-1], f[:-1])
    if not isinstance(at, int):
        return None
    return ret(cx, some(("t", (tmp(cx, "byte", K(at)), wrap(rest)))))


@over("alloc::slice::concat")
def concat(ip, cx):
    """byte slices put one after another"""
    v = dv(cx, 0)
    if v is None or v[0] != "t" or not any(isinstance(t, dict) and (bytesy(t) or t["s"] == "u8") for t in cx.c["a"]):
        return None
    out = []
    for x in v[1]:
        f = flat(ip.deref(cx.st, x))
        if f is None:
            return None
        out += f
    return ret(cx, wrap(out))


@over("core::slice::split_at")
def split_at(ip, cx):
    if not bytesy(cx.c["a"][0]):
        return None
    f = flat(dv(cx, 0))
    if f is None:
        return None
    k = cutat(f, cx.args[1])
    if k is None:
        n, tot = lin(cx.args[1]), lin(length(f))
        if n is not None and not n[1] and not tot[1] and n[0] > tot[0]:
            panic(cx, "split_at")
            return []
        return None
    return ret(cx, ("t", (wrap(f[:k]), wrap(f[k:]))))


@over("alloc::string::String::from_utf8", "core::str::converts::from_utf8", "alloc::string::String::from_utf8_lossy")
def from_utf8(ip, cx):
    v = dv(cx, 0)
    f = flat(v)
    if f is None:
        return None
    t = totext(ip, f)
    if t is None:
        return None
    return ret(cx, t if cx.np.endswith("lossy") else ok(t))


@over("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(ip, cx):
    a = cx.c["a"]
    lim = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32}.get((a[1] if cx.np.endswith("into") else a[0])["s"])
    v = dv(cx, 0)
    if lim is None:
        return None
    if v is not None and v[0] == "k" and isinstance(v[1], int):
        return ret(cx, ok(v) if v[1] < lim else err(K("too big")))
    return None


@over("core::str::parse", "core::str::traits::FromStr::from_str")
def parse(ip, cx):
    t = cx.c["a"][-1] if cx.np.endswith("parse") else cx.c["a"][0]
    if t["k"] != "adt" or t["p"].split("::")[-1] not in ("SelfAddressingIdentifier", "HashFunction"):
        return None
    v = strval(cx, cx.args[0])
    if t["p"].split("::")[-1] == "HashFunction":
        return ret(cx, ok(S("!hash-" + v[1]))) if v in (K("E"), K("F"), K("G"), K("H"), K("I")) else None
    if v is not None and v[0] == "s" and width(v) == SAIDLEN:
        return ret(cx, ok(v))
    if v is not None and v[0] == "k" and isinstance(v[1], str) and len(v[1].encode()) not in (44, 88):
        return ret(cx, err(S("!said-error")))
    return None


# ------------------------------------------------------------------ the SQL cache: an effect log
@m("rusqlite::Connection::execute")
def sql_execute(ip, cx):
    """every statement executed is recorded with its parameters; it may fail"""
    q, p = strval(cx, cx.args[1]), dv(cx, 2)
    if p is not None and p[0] == "t":
        p = ("t", tuple(ip.deref(cx.st, x) for x in p[1]))
    log = cx.st.get("SQL", 0) if "SQL" in cx.st.fr else ("t", ())
    cx.st.fr.setdefault("SQL", {})
    cx.st.fr["SQL"] = {0: ("t", log[1] + (("t", (q, p)),)) if log is not None and log[0] == "t" else None}
    import sqlmodels
    if sqlmodels.EXACT:
        return sqlmodels.exact_execute(ip, cx)
    return [(cx.st, ok(S("!rows"))), (cx.st.copy(), err(S("!sql-error")))]
