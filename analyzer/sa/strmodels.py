"""Exact string operations: regular expressions, prefixes, parsing, on constants mixed with symbolic parts.

A symbolic part (a value with its own identity) stands for a non-empty word made of letters only: code that
looks inside the text sees one letter nobody else uses."""
import re
from facts import norm
from interp import K, S, SL, some, NONE, ok, err
import models as md
from models import m, strval, ret, mark, tmp, concat, dv

BASE = 0x10000          # Linear B syllables: letters, but neither ASCII nor digits
WORDS = [chr(c) for c in range(0x10000, 0x1000c)] + [chr(c) for c in range(0x1000d, 0x10027)] + [chr(c) for c in range(0x10080, 0x100fb)]


class Text:
    """text with one letter per symbolic part"""

    def __init__(self):
        self.syms = []

    def enc(self, v):
        if v is None:
            return None
        if v[0] == "k":
            return v[1] if isinstance(v[1], str) else None
        if v[0] == "cat":
            ps = [self.enc(x) for x in v[1]]
            return None if any(p is None for p in ps) else "".join(ps)
        if v[0] == "s" and md.sym(v) and not md.anytext(v):
            if v not in self.syms:
                if len(self.syms) >= len(WORDS):
                    return None
                self.syms.append(v)
            return WORDS[self.syms.index(v)]
        return None

    def dec(self, ip, s):
        r = K("")
        for part in re.split("([" + WORDS[0] + "-" + WORDS[-1] + "])", s):
            if not part:
                continue
            if part in WORDS and WORDS.index(part) < len(self.syms):
                sv = self.syms[WORDS.index(part)]
                r = sv if r == K("") else ("cat", (r[1] if r[0] == "cat" else (r,)) + (sv,))
            else:
                r = concat(ip, r, K(part))
        return r


def exact_text(v):
    t = Text()
    s = t.enc(v)
    return (t, s) if s is not None else None


# ------------------------------------------------------------------ regular expressions
def rx(p):
    """a pattern of the regex crate: `$` stands for the very end of the text, also when it ends in a newline"""
    out, i, cls = "", 0, False
    multi = re.search(r"\(\?[a-z]*m", p)
    while i < len(p):
        c = p[i]
        if c == "\\":
            out += "\\Z" if p[i:i + 2] == "\\z" else p[i:i + 2]
            i += 2
            continue
        if c == "[" and not cls:
            cls = True
            if p[i + 1:i + 2] in ("]",) or p[i + 1:i + 3] == "^]":
                n = 2 if p[i + 1] == "]" else 3
                out += p[i:i + n]
                i += n
                continue
        elif c == "]":
            cls = False
        out += "\\Z" if c == "$" and not cls and not multi else c
        i += 1
    return re.compile(out)


@m("regex::regex::string::Regex::new", "regex::Regex::new")
def re_new(ip, cx):
    p = strval(cx, cx.args[0])
    if p is not None and p[0] == "k" and isinstance(p[1], str):
        try:
            rx(p[1])
            return ret(cx, ok(("k", ("re", p[1]))))
        except re.error:
            pass
    et = exact_text(p)
    if et is not None:
        try:
            rx(et[1])
            return ret(cx, ok(("k", ("re", et[1], tuple(et[0].syms)))))
        except re.error:
            return ret(cx, err(S("!regex-error")))
    l = mark(ip.labels(p), "regex")
    return [(cx.st, ok(l)), (cx.st.copy(), err(l))]


@m("regex_syntax::escape", "regex::escape")
def re_escape(ip, cx):
    et = exact_text(strval(cx, cx.args[0]))
    if et is None:
        return md.default(ip, cx)
    return ret(cx, et[0].dec(ip, re.sub(r"([\\.+*?()|\[\]{}^$#&\-~])", r"\\\1", et[1])))


def re_of(cx, i=0):
    v = cx.ip.deref(cx.st, cx.args[i])
    if v is not None and v[0] == "k" and isinstance(v[1], tuple) and v[1][0] == "re":
        return rx(v[1][1])
    return None


def et_of(cx, i=1):
    """the text searched in, with the letters the regular expression uses for the same symbols"""
    v = cx.ip.deref(cx.st, cx.args[0])
    t = Text()
    if v is not None and v[0] == "k" and len(v[1]) > 2:
        t.syms = list(v[1][2])
    s = t.enc(strval(cx, cx.args[i]))
    return (t, s) if s is not None else None


def caps(cx, t, mt):
    return ("t", tuple(t.dec(cx.ip, g) if g is not None else K("") for g in (mt.group(0),) + mt.groups()))


@m("regex::regex::string::Regex::replace_all", "regex::Regex::replace_all", "regex::regex::string::Regex::replace", "regex::Regex::replace")
def re_replace_all(ip, cx):
    rx = re_of(cx)
    et = et_of(cx)
    f = ip.deref(cx.st, cx.args[2])
    if rx is None or et is None or f is None:
        return md.default(ip, cx)
    t, s = et
    ms = list(rx.finditer(s))
    if not cx.np.endswith("all"):
        ms = ms[:1]
    out = []
    if f[0] in ("clo", "fn"):
        elems = [tmp(cx, "caps%d" % i, caps(cx, t, x)) for i, x in enumerate(ms)]
        done, cur = md.each(cx, cx.st, elems, f, lambda st, acc, e, r: [(st, md.app(ip, acc, ip.deref(st, r)), False)])
        for st, acc in cur:
            r, pos = K(""), 0
            if acc[0] != "t":
                out.append((st, SL(ip.labels(acc, st) | ip.labels(strval(cx, cx.args[1])))))
                continue
            for x, v in zip(ms, acc[1]):
                r = concat(ip, r, t.dec(ip, s[pos:x.start()]))
                r = concat(ip, r, v if v is not None and v[0] in ("k", "s", "cat") else SL(ip.labels(v, st)))
                pos = x.end()
            out.append((st, concat(ip, r, t.dec(ip, s[pos:]))))
        return out
    rep = strval(cx, cx.args[2])
    if rep is None or (rep[0] == "k" and "$" in rep[1]):
        return md.default(ip, cx)
    r, pos = K(""), 0
    for x in ms:
        r = concat(ip, concat(ip, r, t.dec(ip, s[pos:x.start()])), rep)
        pos = x.end()
    return ret(cx, concat(ip, r, t.dec(ip, s[pos:])))


@m("regex::regex::string::Regex::is_match", "regex::Regex::is_match")
def re_is_match(ip, cx):
    rx = re_of(cx)
    et = et_of(cx)
    if rx is None or et is None:
        return md.default(ip, cx)
    return ret(cx, K(1 if rx.search(et[1]) else 0))


@m("regex::regex::string::Regex::captures", "regex::Regex::captures", "regex::regex::string::Regex::find", "regex::Regex::find")
def re_captures(ip, cx):
    rx = re_of(cx)
    et = et_of(cx)
    if rx is None or et is None:
        v = mark(ip.labels(cx.args[0], cx.st) | ip.labels(cx.args[1], cx.st), "captures")
        return [(cx.st, some(("c", v, None, frozenset()))), (cx.st.copy(), NONE)]
    x = rx.search(et[1])
    if x is None:
        return ret(cx, NONE)
    c = caps(cx, et[0], x)
    return ret(cx, some(c if "captures" in cx.np else c[1][0]))


@m("regex::regex::string::Regex::captures_iter", "regex::Regex::captures_iter", "regex::regex::string::Regex::find_iter", "regex::Regex::find_iter")
def re_captures_iter(ip, cx):
    rx = re_of(cx)
    et = et_of(cx)
    if rx is None or et is None:
        v = mark(ip.labels(cx.args[0], cx.st) | ip.labels(cx.args[1], cx.st), "captures")
        return ret(cx, ("c", ("c", v, None, frozenset()) if "captures" in cx.np else v, None, frozenset()))
    cs = [caps(cx, et[0], x) for x in rx.finditer(et[1])]
    return ret(cx, ("t", tuple(c if "captures" in cx.np else c[1][0] for c in cs)))


@m("regex::regex::string::Captures::get")
def caps_get(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    k = ip.deref(cx.st, cx.args[1])
    if v is not None and v[0] == "t" and k is not None and k[0] == "k":
        return ret(cx, some(v[1][k[1]]) if k[1] < len(v[1]) else NONE)
    l = mark(ip.labels(v, cx.st), "get")
    return [(cx.st, some(l)), (cx.st.copy(), NONE)]


@m("regex::regex::string::Match::as_str")
def match_str(ip, cx):
    return ret(cx, ip.deref(cx.st, cx.args[0]))


# ------------------------------------------------------------------ numbers in text
_parse = md.M["core::str::parse"] if "core::str::parse" in md.M else None


@m("core::str::parse", "core::str::traits::FromStr::from_str")
def s_parse(ip, cx):
    if md.tyname(cx.c["a"][0]).split("::")[-1].startswith("SelfAddressing"):
        v = ip.deref(cx.st, cx.args[0])
        if v is not None and v[0] == "s" and len(v[1]) == 1 and next(iter(v[1])).startswith(("!SAID", "!digest:")):
            return ret(cx, ok(v))          # by convention the text of an identifier
    t = cx.c["a"][0] if cx.c.get("a") else None
    v = strval(cx, cx.args[0])
    if t is not None and v is not None and v[0] == "k" and isinstance(v[1], str) and t["s"] in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "u128", "isize"):
        if re.fullmatch(r"\+?\d+" if t["s"][0] in "u" else r"[+-]?\d+", v[1]):
            return ret(cx, ok(K(int(v[1]))))
        return ret(cx, err(K("parse-int")))
    return _parse(ip, cx)


# ------------------------------------------------------------------ prefixes and parts
def lead(v, last=False):
    """the constant text a string starts (ends) with"""
    if v is None:
        return None
    if v[0] == "k" and isinstance(v[1], str):
        return v[1]
    if v[0] == "cat":
        x = v[1][-1 if last else 0]
        if x[0] == "k" and isinstance(x[1], str):
            return x[1]
    return ""


_strip = md.M["core::str::strip_prefix"]


@m("core::str::strip_prefix", "core::str::strip_suffix", "core::str::trim_start_matches")
def s_strip(ip, cx):
    a, b = strval(cx, cx.args[0]), strval(cx, cx.args[1])
    n = cx.np.split("::")[-1]
    if b is not None and b[0] == "k" and isinstance(b[1], int):
        b = K(chr(b[1]))
    if a is not None and b is not None and b[0] == "k" and isinstance(b[1], str) and a[0] in ("k", "cat"):
        p, l = b[1], lead(a, n.endswith("suffix"))
        if l is not None and (len(l) >= len(p) or a[0] == "k"):
            if n == "strip_prefix":
                return ret(cx, some(cut_front(ip, a, len(p))) if l.startswith(p) else NONE)
            if n == "strip_suffix":
                return ret(cx, some(cut_back(ip, a, len(p))) if l.endswith(p) else NONE)
            if n == "trim_start_matches" and p and not l.startswith(p):
                return ret(cx, a)
            if n == "trim_start_matches" and a[0] == "k" and p:
                s = a[1]
                while s.startswith(p):
                    s = s[len(p):]
                return ret(cx, K(s))
    if n == "trim_start_matches":
        return ret(cx, mark(ip.labels(a), n))
    return _strip(ip, cx)


def cut_front(ip, a, n):
    if a[0] == "k":
        return K(a[1][n:])
    r = K(a[1][0][1][n:])
    for x in a[1][1:]:
        r = concat(ip, r, x)
    return r


def cut_back(ip, a, n):
    if a[0] == "k":
        return K(a[1][:len(a[1]) - n])
    r = K("")
    for x in a[1][:-1]:
        r = concat(ip, r, x)
    t = a[1][-1][1]
    return concat(ip, r, K(t[:len(t) - n]))


_test = md.M["core::str::starts_with"]


@m("core::str::starts_with", "core::str::ends_with", "core::str::contains")
def s_test(ip, cx):
    a, b = strval(cx, cx.args[0]), strval(cx, cx.args[1])
    n = cx.np.split("::")[-1]
    if b is not None and b[0] == "k" and isinstance(b[1], int):
        b = K(chr(b[1]))
    if a is not None and b is not None and b[0] == "k" and isinstance(b[1], str) and a[0] in ("k", "cat"):
        if n != "contains":
            l = lead(a, n == "ends_with")
            if len(l) >= len(b[1]) or a[0] == "k":
                return ret(cx, K(int(l.startswith(b[1]) if n == "starts_with" else l.endswith(b[1]))))
        elif a[0] == "cat" and any(x[0] == "k" and isinstance(x[1], str) and b[1] in x[1] for x in a[1]):
            return ret(cx, K(1))
    return _test(ip, cx)


# ------------------------------------------------------------------ slices and separators
def pieces(v):
    if v is None:
        return None
    if v[0] == "cat":
        return list(v[1])
    return [v] if v[0] == "s" or (v[0] == "k" and isinstance(v[1], str)) else None


def glue(ip, ps):
    r = K("")
    for p in ps:
        r = concat(ip, r, p)
    return r


def bytes_of(p):
    return p[1].encode() if p[0] == "k" else None


def cut(ip, v, n):
    """(text before byte n, text after), "out" when there is no such position, None when unknown"""
    ps = pieces(v)
    if ps is None:
        return None
    before = []
    for i, p in enumerate(ps):
        if n == 0:
            return glue(ip, before), glue(ip, ps[i:])
        b = bytes_of(p)
        if b is None:
            return None
        if n < len(b):
            try:
                return glue(ip, before + [K(b[:n].decode())]), glue(ip, [K(b[n:].decode())] + ps[i + 1:])
            except UnicodeDecodeError:
                return "out"
        n -= len(b)
        before.append(p)
    return (v, K("")) if n == 0 else "out"


def substr(cx, v, r, rt):
    """v[r]: text, "out" or None"""
    n = md.tyname(rt).split("::")[-1]
    r = cx.ip.deref(cx.st, r)
    if r is None or r[0] != "a" or len(r[2]) != 1:
        return None
    f = [x[1] if x is not None and x[0] == "k" and isinstance(x[1], int) else None for x in r[2][0][1]]
    if n == "RangeFull":
        return v
    lo, hi = {"Range": (f + [None, None])[:2], "RangeFrom": (f[0] if f else None, -1), "RangeTo": (0, f[0] if f else None)}.get(n, (None, None))
    if lo is None or hi is None or (hi >= 0 and lo > hi):
        return None
    c = cut(cx.ip, v, lo)
    if c is None or c == "out":
        return c
    if hi < 0:
        return c[1]
    c = cut(cx.ip, c[1], hi - lo)
    return c if c is None or c == "out" else c[0]


_get = md.M["core::str::get"]
_index = md.M["core::ops::index::Index::index"]


@m("core::str::get", "alloc::string::String::get")
def s_get(ip, cx):
    v = strval(cx, cx.args[0])
    x = substr(cx, v, cx.args[1], cx.c["a"][-1]) if cx.c.get("a") else None
    if x is None:
        return _get(ip, cx)
    return ret(cx, NONE if x == "out" else some(x))


@m("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def s_index(ip, cx):
    t = cx.c["a"][0]
    if (t["k"] == "str" or t["s"] == "str" or md.tyname(t) == "alloc::string::String") and len(cx.c["a"]) > 1:
        x = substr(cx, strval(cx, cx.args[0]), cx.args[1], cx.c["a"][1])
        if x == "out":
            md.panic(cx, "index")
            return []
        if x is not None:
            return ret(cx, x)
        md.panic(cx, "index")
    return _index(ip, cx)


_split_once = md.M["core::str::split_once"]


def sepof(cx, i):
    b = strval(cx, cx.args[i])
    if b is not None and b[0] == "k" and isinstance(b[1], int):
        b = K(chr(b[1]))
    # symbolic words are made of letters only, identifiers of letters, digits, - and _
    return b[1] if b is not None and b[0] == "k" and isinstance(b[1], str) and b[1] and not re.search(r"[\w-]", b[1]) else None


@m("core::str::split_once", "core::str::rsplit_once")
def split_once(ip, cx):
    v, sep = strval(cx, cx.args[0]), sepof(cx, 1)
    ps = pieces(v)
    if sep is None or ps is None or not all(p[0] == "k" or md.sym(p) for p in ps):
        if ps is not None and len(ps) == 1 and ps[0][0] == "k":
            b = strval(cx, cx.args[1])
            b = chr(b[1]) if b is not None and b[0] == "k" and isinstance(b[1], int) else b[1] if b is not None and b[0] == "k" else None
            if b is not None:
                a, s_, c = ps[0][1].rpartition(b) if cx.np.split("::")[-1][0] == "r" else ps[0][1].partition(b)
                return ret(cx, some(("t", (K(a), K(c)))) if s_ else NONE)
        return _split_once(ip, cx)
    rev = cx.np.split("::")[-1][0] == "r"
    for i in (reversed(range(len(ps))) if rev else range(len(ps))):
        if md.anytext(ps[i]):
            if rev or i == 0:
                return _split_once(ip, cx)
            # what comes before the arbitrary part is kept, whether or not the separator is within it
            return [(cx.st, some(("t", (glue(ip, ps[:i] + [md.s_ext(ps[i], "#a")]), glue(ip, [md.s_ext(ps[i], "#b")] + ps[i + 1:]))))), (cx.st.copy(), NONE)]
        if ps[i][0] == "k" and sep in ps[i][1]:
            a, _, b = ps[i][1].rpartition(sep) if rev else ps[i][1].partition(sep)
            return ret(cx, some(("t", (glue(ip, ps[:i] + [K(a)]), glue(ip, [K(b)] + ps[i + 1:])))))
    return ret(cx, NONE)


# ------------------------------------------------------------------ Lua: the verdict of the interpreter is anything
LUA = None              # the case a rule looks at: every condition evaluates (True), none does (False)


@m("piccolo::lua::Lua::new", "piccolo::lua::Lua::full", "piccolo::lua::Lua::core", "piccolo::lua::Lua::empty")
def lua_new(ip, cx):
    return ret(cx, S("~lua"))


@m("piccolo::lua::Lua::try_run", "piccolo::lua::Lua::run_thread", "piccolo::lua::Lua::try_enter", "piccolo::lua::Lua::execute")
def lua_run(ip, cx):
    outs = [(cx.st, ok(S("~lua-value"))), (cx.st.copy(), err(S("~lua-verdict")))]
    return outs if LUA is None else [outs[0] if LUA or cx.np.endswith("try_run") else outs[1]]


@m("piccolo::error::StaticError::source", "core::error::Error::source")
def lua_source(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    if v is not None and v[0] == "s" and v[1] == frozenset(["~lua-verdict"]):
        return ret(cx, some(v))
    l = SL(ip.labels(v, cx.st))
    return [(cx.st, some(l)), (cx.st.copy(), NONE)]


@m("regex::regex::string::Captures::extract", "regex::Captures::extract")
def caps_extract(ip, cx):
    v = dv(cx, 0)
    if v is None or v[0] != "t" or not v[1]:
        return md.default(ip, cx)
    return ret(cx, ("t", (v[1][0], ("t", v[1][1:]))))
