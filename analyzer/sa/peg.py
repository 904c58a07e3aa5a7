"""Pest grammars as data: parse a .pest file, match a sentential form (characters and opaque tokens) against a rule,
produce the pair tree pest's generated parser would hand to the code."""
import re
import unicodedata


class Tok:
    """an opaque token in a sentential form: a non-empty string over a character class, given by sample characters"""

    def __init__(self, label, samples):
        self.label = label          # abstract value it stands for
        self.samples = samples

    def __repr__(self):
        return f"<{self.label}>"


class Ambiguous(Exception):
    pass


class GrammarError(Exception):
    pass


TOKRE = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.)')|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<rep>\{\s*\d*\s*,?\s*\d*\s*\})|(?P<p>[=~|*+?!&(){}@$_]|\.\.|PUSH)''', re.S)


def unesc(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i + 1]
            if c == "u":
                j = s.index("}", i)
                out += chr(int(s[i + 3:j], 16))
                i = j + 1
                continue
            if c == "x":
                out += chr(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out += {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c)
            i += 2
        else:
            out += s[i]
            i += 1
    return out


class Grammar:
    def __init__(self, text):
        self.rules = {}
        self.toks = []
        i = 0
        while i < len(text):
            mt = TOKRE.match(text, i)
            if not mt:
                raise GrammarError(f"cannot read grammar at {text[i:i+30]!r}")
            i = mt.end()
            if mt.lastgroup:
                self.toks.append((mt.lastgroup, mt.group()))
        self.i = 0
        while self.i < len(self.toks):
            self.rule()
        self.unit_cache = {}

    def pk(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def nx(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def exp(self, s):
        t = self.nx()
        if t[1] != s:
            raise GrammarError(f"expected {s} found {t[1]}")

    def rule(self):
        k, name = self.nx()
        if k != "id":
            raise GrammarError(f"rule name expected, found {name}")
        self.exp("=")
        mod = ""
        if self.pk()[1] in ("_", "@", "$", "!") and self.pk()[1] != "{":
            mod = self.nx()[1]
        self.exp("{")
        e = self.choice()
        self.exp("}")
        self.rules[name] = (mod, e)

    def choice(self):
        if self.pk()[1] == "|":
            self.nx()
        xs = [self.seq()]
        while self.pk()[1] == "|":
            self.nx()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("|", xs)

    def seq(self):
        xs = [self.prefix()]
        while self.pk()[1] == "~":
            self.nx()
            xs.append(self.prefix())
        return xs[0] if len(xs) == 1 else ("~", xs)

    def prefix(self):
        k, t = self.pk()
        if t in ("!", "&"):
            self.nx()
            return (t, self.prefix())
        return self.postfix()

    def postfix(self):
        k, t = self.nx()
        if t == "(":
            e = self.choice()
            self.exp(")")
        elif k == "str":
            e = ("i", unesc(t[2:-1])) if t[0] == "^" else ("s", unesc(t[1:-1]))
        elif k == "chr":
            a = unesc(t[1:-1])
            self.exp("..")
            b = unesc(self.nx()[1][1:-1])
            e = ("range", a, b)
        elif k == "id" or t == "_":
            e = ("r", t)
        else:
            raise GrammarError(f"unexpected {t}")
        while True:
            k, t = self.pk()
            if t in ("*", "+", "?"):
                self.nx()
                e = (t, e)
            elif k == "rep" and re.search(r"\d", t):
                self.nx()
                b = re.sub(r"[{}\s]", "", t)
                if "," in b:
                    lo, hi = b.split(",")
                    e = ("{", e, int(lo or 0), int(hi) if hi else None)
                else:
                    e = ("{", e, int(b), int(b))
            else:
                return e

    # ---- does an expression always consume exactly one character
    def unit(self, e, d=0):
        if d > 30:
            return False
        k = e[0]
        if k in ("s", "i"):
            return len(e[1]) == 1
        if k == "range":
            return True
        if k == "|":
            return all(self.unit(x, d + 1) for x in e[1])
        if k == "~":
            n = [x for x in e[1] if x[0] not in ("!", "&")]
            return len(n) == 1 and e[1][-1] is n[0] and self.unit(n[0], d + 1)
        if k == "r":
            if e[1] in BUILTIN:
                return True
            if e[1] in self.rules:
                if e[1] not in self.unit_cache:
                    self.unit_cache[e[1]] = False
                    self.unit_cache[e[1]] = self.unit(self.rules[e[1]][1], d + 1)
                return self.unit_cache[e[1]]
            return e[1].isupper() and e[1] not in ("SOI", "EOI", "NEWLINE")
        return False


def cat(c):
    return unicodedata.category(c)


BUILTIN = {
    "ANY": lambda c: True,
    "ASCII_DIGIT": lambda c: c.isascii() and c.isdigit(),
    "ASCII_NONZERO_DIGIT": lambda c: c in "123456789",
    "ASCII_HEX_DIGIT": lambda c: c in "0123456789abcdefABCDEF",
    "ASCII_ALPHA": lambda c: c.isascii() and c.isalpha(),
    "ASCII_ALPHA_LOWER": lambda c: c.isascii() and c.islower(),
    "ASCII_ALPHA_UPPER": lambda c: c.isascii() and c.isupper(),
    "ASCII_ALPHANUMERIC": lambda c: c.isascii() and c.isalnum(),
    "LETTER": lambda c: cat(c)[0] == "L",
    "NUMBER": lambda c: cat(c)[0] == "N",
}


class Node:
    __slots__ = ("rule", "start", "end", "kids", "toks")

    def __init__(self, rule, start, end, kids, toks):
        self.rule, self.start, self.end, self.kids, self.toks = rule, start, end, kids, toks

    def text(self):
        return self.toks[self.start:self.end]

    def show(self, d=0):
        return "  " * d + self.rule + " " + "".join(str(x) for x in self.text())[:60] + "\n" + "".join(k.show(d + 1) for k in self.kids)


class Match:
    def __init__(self, g, form):
        """form: list of characters and Tok"""
        self.g = g
        self.f = form
        self.far = 0
        self.memo = {}
        self.steps = 0

    def parse(self, rule):
        r = self.parse_all(rule)
        return r[0] if r else None

    def parse_all(self, rule):
        """top-level nodes, or None when the text does not match"""
        r = self.call(rule, 0, "", False)
        return None if r is None else r[1]

    def call(self, name, pos, atom, look):
        key = (name, pos, atom, look)
        if key in self.memo:
            return self.memo[key]
        r = self.call1(name, pos, atom, look)
        self.memo[key] = r
        return r

    def call1(self, name, pos, atom, look):
        """atom: "" normal, "@" atomic, "$" compound -> (end, nodes) or None"""
        g = self.g
        self.steps += 1
        if name == "SOI":
            return (pos, []) if pos == 0 else None
        if name == "EOI":
            if pos != len(self.f):
                return None
            return (pos, [] if look or atom == "@" else [Node("EOI", pos, pos, [], self.f)])
        if name == "NEWLINE":
            c = self.f[pos] if pos < len(self.f) else None
            if c == "\r" and pos + 1 < len(self.f) and self.f[pos + 1] == "\n":
                return (pos + 2, [])
            return (pos + 1, []) if c in ("\n", "\r") else None
        if name not in g.rules:
            return self.char(("r", name), pos)
        mod, e = g.rules[name]
        if mod == "_":
            return self.m(e, pos, atom, look)
        inner = {"": atom, "@": "@", "$": "$", "!": ""}[mod]
        # $ and ! set their atomicity before the rule's own token is made, @ after
        own = inner if mod in ("$", "!") else atom
        r = self.m(e, pos, inner, look)
        if r is None:
            return None
        if look or own == "@":
            return (r[0], r[1] if own != "@" or True else [])
        return (r[0], [Node(name, pos, r[0], r[1], self.f)])

    def char(self, e, pos):
        """single-character expression against one item"""
        if pos >= len(self.f):
            return None
        c = self.f[pos]
        self.far = max(self.far, pos)
        if isinstance(c, Tok):
            rs = {bool(self.one(e, x)) for x in c.samples}
            if len(rs) > 1:
                raise Ambiguous(f"{e} against {c}")
            return (pos + 1, []) if rs == {True} else None
        return (pos + 1, []) if self.one(e, c) else None

    def one(self, e, c):
        k = e[0]
        if k == "s":
            return e[1] == c
        if k == "i":
            return e[1].lower() == c.lower()
        if k == "range":
            return e[1] <= c <= e[2]
        if k == "|":
            return any(self.one(x, c) for x in e[1])
        if k == "~":
            for x in e[1]:
                if x[0] == "!":
                    if self.starts(x[1], c):
                        return False
                elif x[0] == "&":
                    if not self.starts(x[1], c):
                        return False
                elif not self.one(x, c):
                    return False
            return True
        if k == "r":
            if e[1] in self.g.rules:
                return self.one(self.g.rules[e[1]][1], c)
            if e[1] == "NEWLINE":
                return c in "\r\n"
            if e[1] == "EOI":
                return False
            b = BUILTIN.get(e[1])
            if b:
                return b(c)
            if e[1].isupper():
                return False if c.isascii() else cat(c)[0] in "LMN"
            raise GrammarError(f"unknown rule {e[1]}")
        raise GrammarError(f"not a single character: {e}")

    def starts(self, e, c):
        """can the lookahead match a text that begins with c (single-character lookaheads exactly)"""
        if self.g.unit(e) or e == ("r", "NEWLINE") or e == ("r", "EOI"):
            return self.one(e, c)
        k = e[0]
        if k == "|":
            return any(self.starts(x, c) for x in e[1])
        if k in ("s", "i"):
            return False if len(e[1]) > 1 else self.one(e, c)
        if k == "~":
            return self.starts(e[1][0], c)
        if k in ("+",):
            return self.starts(e[1], c)
        if k == "r" and e[1] in self.g.rules:
            return self.starts(self.g.rules[e[1]][1], c)
        raise Ambiguous(f"lookahead {e}")

    def m(self, e, pos, atom, look):
        k = e[0]
        if k in ("s", "i"):
            s = e[1]
            if len(s) == 1:
                return self.char(e, pos)
            p = pos
            for c in s:
                if p >= len(self.f) or isinstance(self.f[p], Tok):
                    return None
                x = self.f[p]
                if x != c and not (k == "i" and x.lower() == c.lower()):
                    return None
                p += 1
            self.far = max(self.far, p)
            return (p, [])
        if k == "range":
            return self.char(e, pos)
        if k == "r":
            return self.call(e[1], pos, atom, look)
        if k == "|":
            # an opaque token must be inside one class taken as a whole
            if pos < len(self.f) and isinstance(self.f[pos], Tok) and self.g.unit(e):
                r = self.char(e, pos)
                if r is None:
                    return None
                for x in e[1]:
                    try:
                        y = self.m(x, pos, atom, look)
                    except Ambiguous:
                        continue
                    if y is not None:
                        return y
                return r
            for x in e[1]:
                r = self.m(x, pos, atom, look)
                if r is not None:
                    return r
            return None
        if k == "~":
            if pos < len(self.f) and isinstance(self.f[pos], Tok) and self.g.unit(e):
                r = self.char(e, pos)
                return r
            p, ns = pos, []
            for x in e[1]:
                r = self.m(x, p, atom, look)
                if r is None:
                    return None
                p = r[0]
                ns = ns + r[1]
            return (p, ns)
        if k == "!":
            return None if self.m(e[1], pos, atom, True) is not None else (pos, [])
        if k == "&":
            return (pos, []) if self.m(e[1], pos, atom, True) is not None else None
        if k == "?":
            r = self.m(e[1], pos, atom, look)
            return r if r is not None else (pos, [])
        if k in ("*", "+", "{"):
            lo, hi = (0, None) if k == "*" else (1, None) if k == "+" else (e[2], e[3])
            n, p, ns = 0, pos, []
            tk = 0
            while hi is None or n < hi:
                r = self.m(e[1], p, atom, look)
                if r is None:
                    break
                if r[0] == p and n >= lo:
                    break
                if p < len(self.f) and isinstance(self.f[p], Tok) and r[0] == p + 1:
                    tk += 1
                p = r[0]
                ns = ns + r[1]
                n += 1
            if n < lo:
                # an opaque token stands for any number of characters
                if k == "{" and tk:
                    raise Ambiguous(f"{e}")
                return None
            if k == "{" and tk:
                raise Ambiguous(f"{e}")
            return (p, ns)
        raise GrammarError(f"{e}")
