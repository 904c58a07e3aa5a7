"""Pest parsers: the grammar of the current tree applied to texts with symbolic parts; the pair tree the code then walks.

A text is a sequence of characters and opaque parts. An opaque part stands for any non-empty word (`!x`: letters,
digits, - and _), any SAID, or any text without double quotes, backslashes and control characters (`!*x`). The grammar
must treat all characters of an opaque part alike, otherwise the match is refused (Ambiguous) and the result unknown."""
import os
import re
from interp import K, S, SL, some, NONE, ok, err
import models as md
from models import m, ret, dv, strval, tmp, concat, mark
import peg
from bytemodels import width, SAIDLEN

PAIR = "pest::Pair"
WORD = "aZ0_-"
ANY = "aZ0_- .,:;/#'[]{}()=%&<>~+*?!$@^|\u00e9\u4e2d\u0301"


class Form:
    """a text as characters and opaque parts"""

    def __init__(self, v):
        self.toks = []
        self.syms = {}
        self.bad = not self.add(v)

    def add(self, v):
        if v is None:
            return False
        if v[0] == "k" and isinstance(v[1], str):
            self.toks += list(v[1])
            return True
        if v[0] == "cat":
            return all(self.add(x) for x in v[1])
        if v[0] == "s" and md.sym(v):
            self.toks.append(peg.Tok(v, ANY if md.anytext(v) else WORD))
            return True
        return False

    def val(self, ip, a, b):
        r, s = K(""), ""
        for t in self.toks[a:b]:
            if isinstance(t, peg.Tok):
                if s:
                    r, s = concat(ip, r, K(s)), ""
                r = t.label if r == K("") else ("cat", (r[1] if r[0] == "cat" else (r,)) + (t.label,))
            else:
                s += t
        return concat(ip, r, K(s)) if s else r


def grammar(ip, crate):
    """the grammar file named by the #[grammar] attribute of the crate that defines the parser"""
    c = ip.F.__dict__.setdefault("grammars", {})
    if crate in c:
        return c[crate]
    rules = [a for a in ip.F.adts.values() if a["p"].split("::")[0] == crate and a["p"].split("::")[-1] == "Rule" and a["kind"] == "enum"]
    g = None
    if len(rules) == 1 and rules[0].get("sp"):
        src = rules[0]["sp"].rsplit(":", 1)[0]
        path = os.path.join(getattr(ip.F, "repo", os.environ.get("OCA_REPO", "/repo")), src)
        root = path
        while os.path.basename(root) != "src" and len(root) > 1:
            root = os.path.dirname(root)
        names = re.findall(r'#\[grammar\s*=\s*"([^"]+)"\s*\]', open(path, encoding="utf-8").read())
        names = [n for n in names if os.path.isfile(os.path.join(root, n))]
        if len(names) == 1:
            g = (peg.Grammar(open(os.path.join(root, names[0]), encoding="utf-8").read()), rules[0])
    c[crate] = g
    return g


def ruleval(adt, name):
    for i, v in enumerate(adt["v"]):
        if v["n"] == name:
            return ("a", adt["p"], ((i, ()),))
    return None


def rulename(ip, v):
    if v is None or v[0] != "a" or len(v[2]) != 1:
        return None
    a = ip.F.adts.get(v[1])
    return a["v"][v[2][0][0]]["n"] if a else None


def pair(ip, adt, form, n):
    kids = ("t", tuple(pair(ip, adt, form, k) for k in n.kids))
    nl = [i for i, t in enumerate(form.toks[:n.start]) if t == "\n"]
    col = n.start - (nl[-1] + 1 if nl else 0) + 1
    return ("a", PAIR, ((0, (ruleval(adt, n.rule), form.val(ip, n.start, n.end), kids, K(len(nl) + 1), K(col))),))


def parse(ip, cx, fn):
    """Parser::parse(rule, text)"""
    g = grammar(ip, fn.crate)
    rn = rulename(ip, dv(cx, 0))
    v = strval(cx, cx.args[1])
    f = Form(v)
    l = ip.labels(v)
    if g is None or rn is None or f.bad:
        ip.unmodelled["pest parse"] = ip.unmodelled.get("pest parse", 0) + 1
        return ret(cx, err(mark(l, "pest-unknown")))
    try:
        mt = peg.Match(g[0], f.toks)
        n = mt.parse_all(rn)
    except peg.Ambiguous as e:
        ip.unmodelled["pest ambiguous " + str(e)[:120]] = 1
        return ret(cx, err(mark(l, "pest-unknown")))
    if n is None:
        return ret(cx, err(S("!pest-error")))
    return ret(cx, ok(("t", tuple(pair(ip, g[1], f, x) for x in n))))


def override(ip, cx, fn, _o=md.override):
    if fn.trait == "pest::parser::Parser" and fn.name == "parse":
        return parse(ip, cx, fn)
    return _o(ip, cx, fn)


md.override = override


def pf(cx, i):
    v = dv(cx, 0)
    if v is None or v[0] != "a" or v[1] != PAIR:
        return None
    return v[2][0][1][i]


def acc(i, *names):
    def g(ip, cx):
        x = pf(cx, i)
        return ret(cx, x) if x is not None else md.default(ip, cx)
    m(*names)(g)


acc(0, "pest::iterators::pair::Pair::as_rule")
acc(1, "pest::iterators::pair::Pair::as_str", "pest::span::Span::as_str")
acc(2, "pest::iterators::pair::Pair::into_inner")


@m("pest::iterators::pair::Pair::as_span")
def as_span(ip, cx):
    return ret(cx, dv(cx, 0))


@m("pest::iterators::pair::Pair::line_col", "pest::position::Position::line_col")
def line_col(ip, cx):
    if pf(cx, 3) is None:
        return md.default(ip, cx)
    return ret(cx, ("t", (pf(cx, 3), pf(cx, 4))))


@m("pest::span::Span::start_pos")
def start_pos(ip, cx):
    return ret(cx, dv(cx, 0))
