"""Exact operations on texts with opaque parts, where the class of the opaque parts decides them.

An opaque part is a non-empty word (letters, digits, - and _), an identifier of the same characters, or any text without
double quotes, backslashes and control characters. An operation whose outcome depends on more than that is left to the
general models (several outcomes)."""
from interp import K, S, SL, some, NONE
import models as md
from models import m, ret, strval, dv, concat
from strmodels import pieces, glue


def inclass(x, c):
    """may the opaque part x contain the character c"""
    if md.anytext(x):
        return c not in '"\\' and ord(c) >= 32 and ord(c) != 127
    return (c.isascii() and c.isalnum()) or c in "-_"


def form(v):
    """list of characters and opaque parts, or None"""
    ps = pieces(v)
    if ps is None or any(p[0] == "s" and not md.sym(p) for p in ps):
        return None
    out = []
    for p in ps:
        out += list(p[1]) if p[0] == "k" else [p]
    return out


def unform(ip, f):
    r, s = [], ""
    for x in f:
        if isinstance(x, str):
            s += x
        else:
            if s:
                r.append(K(s))
            s = ""
            r.append(x)
    return glue(ip, r + ([K(s)] if s else []))


def alts(cx, i):
    """the constant texts a pattern stands for, or None"""
    v = strval(cx, cx.args[i])
    for _ in range(3):
        if v is not None and v[0] == "r":
            v = cx.ip.deref(cx.st, v)
    if v is None:
        return None
    if v[0] == "k":
        x = chr(v[1]) if isinstance(v[1], int) else v[1]
        return [x] if isinstance(x, str) and x else None
    if v[0] == "t":
        xs = [cx.ip.deref(cx.st, x) if x is not None and x[0] == "r" else x for x in v[1]]
        if xs and all(x is not None and x[0] == "k" and isinstance(x[1], int) for x in xs):
            return [chr(x[1]) for x in xs]
    return None


def spot(f, i, p):
    """does p match at position i of the form: True, False or None (it may)"""
    st = {(i, False)}                   # position, inside the opaque part there
    used = False
    for c in p:
        nx = set()
        todo = list(st)
        seen = set()
        while todo:
            j, ins = todo.pop()
            if (j, ins) in seen or j >= len(f):
                continue
            seen.add((j, ins))
            x = f[j]
            if isinstance(x, str):
                if x == c:
                    nx.add((j + 1, False))
                continue
            if inclass(x, c):
                used = True
                nx |= {(j, True), (j + 1, False)}
            if ins or md.anytext(x):
                todo.append((j + 1, False))
                used = True
        st = nx
        if not st:
            return False
    return None if used else True


def hits(f, ps):
    """-> (sorted non-overlapping matches [(start, length)] of constants, whether other matches are possible)"""
    certain, maybe = [], False
    i = 0
    while i < len(f):
        if not isinstance(f[i], str):
            # a match that starts inside the opaque part
            for p in ps:
                if inclass(f[i], p[0]) and (len(p) == 1 or spot([f[i]] + f[i:], 0, p) is not False):
                    maybe = True
            i += 1
            continue
        step = 1
        for p in ps:
            s = spot(f, i, p)
            if s is None:
                maybe = True
            elif s:
                certain.append((i, len(p)))
                step = len(p)
                break
        i += step
    return certain, maybe


def wrap(*names):
    """the exact model first; the model it replaces when it does not decide"""
    def g(f):
        for n in names:
            old = md.M.get(n)

            def h(ip, cx, old=old):
                r = f(ip, cx, cx.np.split("::")[-1])
                if r is not None:
                    return r
                return old(ip, cx) if old else md.default(ip, cx)
            md.M[n] = h
        return f
    return g


def me(cx, i=0):
    return form(strval(cx, cx.args[i]))


def edge(f, p, last):
    """does the form start (end) with p: True, False, None"""
    if last:
        g, q = f[::-1], p[::-1]
    else:
        g, q = f, p
    return spot(g, 0, q)


@wrap("core::str::contains", "core::str::starts_with", "core::str::ends_with")
def test(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    if f is None or ps is None:
        return None
    if n == "contains":
        c, maybe = hits(f, ps)
        return ret(cx, K(1)) if c else None if maybe else ret(cx, K(0))
    rs = [edge(f, p, n == "ends_with") for p in ps]
    return ret(cx, K(1)) if True in rs else None if None in rs else ret(cx, K(0))


@wrap("core::str::strip_prefix", "core::str::strip_suffix")
def strip(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    if f is None or ps is None or len(ps) != 1:
        return None
    r = edge(f, ps[0], n == "strip_suffix")
    if r is None:
        return None
    k = len(ps[0])
    return ret(cx, some(unform(ip, f[:len(f) - k] if n == "strip_suffix" else f[k:])) if r else NONE)


@wrap("core::str::trim_start_matches", "core::str::trim_end_matches", "core::str::trim_matches")
def trim_matches(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    if f is None or ps is None:
        return None
    for last in ((False,) if "start" in n else (True,) if "end" in n else (False, True)):
        while True:
            rs = [(p, edge(f, p, last)) for p in ps]
            if any(r is None for _, r in rs):
                return None
            h = [p for p, r in rs if r]
            if not h:
                break
            f = f[:len(f) - len(h[0])] if last else f[len(h[0]):]
    return ret(cx, unform(ip, f))


@wrap("core::str::trim", "core::str::trim_start", "core::str::trim_end")
def trim(ip, cx, n):
    f = me(cx)
    if f is None:
        return None
    if n != "trim_end":
        while f and isinstance(f[0], str) and f[0].isspace():
            f = f[1:]
        if f and not isinstance(f[0], str) and md.anytext(f[0]):
            return None
    if n != "trim_start":
        while f and isinstance(f[-1], str) and f[-1].isspace():
            f = f[:-1]
        if f and not isinstance(f[-1], str) and md.anytext(f[-1]):
            return None
    return ret(cx, unform(ip, f))


def cutat(f, hs):
    out, pos = [], 0
    for i, k in hs:
        out.append(f[pos:i])
        pos = i + k
    return out + [f[pos:]]


@wrap("alloc::str::replace", "alloc::str::replacen")
def replace(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    to = strval(cx, cx.args[2])
    if f is None or ps is None or to is None or to[0] not in ("k", "s", "cat"):
        return None
    hs, maybe = hits(f, ps)
    if maybe:
        return None
    if n == "replacen":
        k = dv(cx, 3)
        if k is None or k[0] != "k":
            return None
        hs = hs[:k[1]]
    ps = [unform(ip, x) for x in cutat(f, hs)]
    r = ps[0]
    for x in ps[1:]:
        r = concat(ip, concat(ip, r, to), x)
    return ret(cx, r)


@wrap("core::str::split", "core::str::rsplit", "core::str::splitn", "core::str::rsplitn", "core::str::split_terminator")
def split(ip, cx, n):
    f, ps = me(cx), alts(cx, 2 if n.endswith("splitn") else 1)
    if f is None or ps is None:
        return None
    hs, maybe = hits(f, ps)
    if maybe or (n[0] == "r" and any(len(p) > 1 for p in ps)):
        return None
    if n.endswith("splitn"):
        k = dv(cx, 1)
        if k is None or k[0] != "k" or not isinstance(k[1], int):
            return None
        hs = [] if k[1] < 2 else hs[-(k[1] - 1):] if n[0] == "r" else hs[:k[1] - 1]
        if k[1] == 0:
            return ret(cx, ("t", ()))
    xs = cutat(f, hs)
    if n == "split_terminator" and not xs[-1]:
        xs = xs[:-1]
    return ret(cx, ("t", tuple(unform(ip, x) for x in (xs[::-1] if n[0] == "r" else xs))))


@wrap("core::str::split_once", "core::str::rsplit_once")
def split_once(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    if f is None or ps is None:
        return None
    hs, maybe = hits(f, ps)
    if maybe or (n[0] == "r" and any(len(p) > 1 for p in ps)):
        return None
    if not hs:
        return ret(cx, NONE)
    i, k = hs[-1 if n[0] == "r" else 0]
    return ret(cx, some(("t", (unform(ip, f[:i]), unform(ip, f[i + k:])))))


@wrap("core::str::lines")
def lines(ip, cx, n):
    f = me(cx)
    if f is None:
        return None
    xs = cutat(f, [(i, 1) for i, c in enumerate(f) if c == "\n"])
    if not xs[-1]:
        xs = xs[:-1]
    xs = [x[:-1] if x and x[-1] == "\r" else x for x in xs]
    return ret(cx, ("t", tuple(unform(ip, x) for x in xs)))


@wrap("core::str::split_whitespace")
def split_ws(ip, cx, n):
    f = me(cx)
    if f is None or any(not isinstance(x, str) and md.anytext(x) for x in f):
        return None
    xs = cutat(f, [(i, 1) for i, c in enumerate(f) if isinstance(c, str) and c.isspace()])
    return ret(cx, ("t", tuple(unform(ip, x) for x in xs if x)))


@wrap("core::str::chars", "core::str::char_indices", "core::str::bytes")
def chars(ip, cx, n):
    v = strval(cx, cx.args[0])
    if v is None or v[0] != "k" or not isinstance(v[1], str) or len(v[1]) > 60:
        return None
    if n == "bytes":
        return ret(cx, ("t", tuple(K(b) for b in v[1].encode())))
    if n == "chars":
        return ret(cx, ("t", tuple(K(ord(c)) for c in v[1])))
    out, k = [], 0
    for c in v[1]:
        out.append(("t", (K(k), K(ord(c)))))
        k += len(c.encode())
    return ret(cx, ("t", tuple(out)))


@wrap("alloc::string::String::is_empty", "core::str::is_empty")
def is_empty(ip, cx, n):
    f = me(cx)
    if f is None or (f and all(not isinstance(x, str) and md.anytext(x) for x in f)):
        return None
    return ret(cx, K(0 if f else 1))


@wrap("core::str::find", "core::str::rfind")
def find(ip, cx, n):
    f, ps = me(cx), alts(cx, 1)
    if f is None or ps is None:
        return None
    hs, maybe = hits(f, ps)
    if maybe:
        return None
    if not hs:
        return ret(cx, NONE)
    i = hs[-1 if n[0] == "r" else 0][0]
    if any(not isinstance(x, str) for x in f[:i]):
        return None
    return ret(cx, some(K(len("".join(f[:i]).encode()))))


CHAR = {"is_whitespace": str.isspace, "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_uppercase": str.isupper, "is_lowercase": str.islower,
        "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
        "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
        "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160, "is_ascii": str.isascii}


@wrap(*["core::char::methods::" + n for n in CHAR], *["core::char::" + n for n in CHAR])
def char(ip, cx, n):
    v = dv(cx, 0)
    if v is None or v[0] != "k" or not isinstance(v[1], int):
        return None
    return ret(cx, K(int(CHAR[n](chr(v[1])))))
