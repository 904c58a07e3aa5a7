"""OCAFILEs from a fixed sequence: instructions of every kind in any order, in any layout, with any quoting; names and texts symbolic."""
import random
from base import *
import ocafile as of
import steps
import transform as tr
from ocafile import T, B, SIMPLE

LANGS = ["en", "fr", "pl", "en-US", "de-at", "FR", "pt-BR"]
TYPES = ["Text", "Numeric", "Boolean", "Binary", "DateTime"]
PIECES = [" ", "a", "Z9", "#", " # x", "--", "=", "{ ", " }", "[", "]", ",", ": ", "\\d", "\\\\", "\\n", "\\t", "\\u00e9", "\u00e9", "\u6f22", "$", "\n", "ADD LABEL en ATTRS", "http://x.y/z", "\\ ", "%", "&amp;", "<b>", "\t", "\n-- precompiler=foo\n", "\n# x\n"]


class Draw:
    def __init__(self, r, rnd, b, layout=True):
        self.r, self.rnd, self.b, self.layout, self.n = r, rnd, b, layout, 0
        self.has, self.cls = [], False

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # ---- layout
    def ws(self):
        if not self.layout or self.rnd.random() < .6:
            return " "
        return self.rnd.choice(["  ", "\t", " \t ", " \\\n", "\\\n    ", " \\  \n", " \\\n# in between \\\n", " \\\n\n \n  ", " \\\n   # one\n#two\n "])

    def opt(self):
        return "" if self.rnd.random() < .6 else self.ws()

    def kw(self, s):
        if not self.layout:
            return s
        return self.rnd.choice([s, s, s.lower(), s.capitalize(), "".join(self.rnd.choice([c.lower(), c.upper()]) for c in s)])

    def eq(self):
        return self.opt() + "=" + self.opt() if self.layout else "="

    def sp(self):
        return self.rnd.choice(["", " ", "   "]) if self.layout else " "

    # ---- names and texts: (as written, as read)
    def name(self):
        return self.rnd.choice(["{%s}" % self.fresh("n")] * 4 + [self.fresh("x.y-z_"), self.fresh("A."), self.fresh("0-")])

    def prop(self):
        return self.rnd.choice(["{%s}" % self.fresh("k")] * 3 + [self.fresh("name-"), self.fresh("x-y_")])

    def word(self):
        w = self.rnd.choice(["{%s}" % self.fresh("w")] * 3 + ["http://x.y/z-1_2:3", "\u017c\u00f3\u0142\u0107", "1.0", "M", "refs:x", "-- name"[:2] + "n", "utf-8", "/", "_"])
        return w, w

    def text(self):
        q = self.rnd.choice("\"'")
        out = []
        for _ in range(self.rnd.choice((0, 1, 1, 2, 4, 6))):
            out.append(self.rnd.choice([("{*%s}" if q == '"' else "{%s}") % self.fresh("t")] * 6 + PIECES + ["'" if q == '"' else '"', "\\" + q] * 3))
        s = "".join(out)
        if not self.layout and "\t" in s:
            s = s.replace("\t", "")
        return q + s + q, s

    def value(self):
        return self.word() if self.rnd.random() < .3 else self.text()

    def unit(self):
        if self.rnd.random() < .5 or not self.layout:
            return self.value()
        u = self.rnd.choice(["m^2", "\u00b0C", "kg*m/s", "x=y", "%", "[lb]", "{u}", "5'", "5'30\"", "m\\s", "m\u00b2", "a,b", "#1", "$"])
        return u, u

    def pick(self, xs, least=1, most=4):
        xs = list(xs)
        return self.rnd.sample(xs, min(len(xs), self.rnd.randint(least, most)))

    def pairs(self, f, eq=None):
        """-> (written, [(name, value read)]) of some attributes"""
        ns = [self.name() for _ in range(self.rnd.randint(1, 3))]
        out, vals = "", []
        for n in ns:
            w, v = f()
            out += (self.ws() if out else "") + n + (self.eq() if eq is None else eq) + w
            vals.append((n, v))
        return out, vals

    # ---- instructions: (text, command)
    def type(self):
        d = self.rnd.choice((0, 0, 0, 1, 1, 2, 3))
        k = self.rnd.random()
        t = self.rnd.choice(TYPES) if k < .6 else "refs:{SAID%s}" % self.fresh("s") if k < .8 else "refn:" + self.rnd.choice(["{%s}" % self.fresh("m"), "a/b:c.d-e_f"])
        w = v = t
        for _ in range(d):
            w, v = "Array[" + self.opt() + w + self.opt() + "]", f"Array[{v}]"
        if self.layout and d == 0 and self.rnd.random() < .3:
            w = w.replace("refs:", "REFS:").replace("refn:", "Refn:")
        return w, v

    def attribute(self):
        s, vals = self.pairs(self.type)
        self.has += [n for n, _ in vals]
        return self.kw("ADD") + self.ws() + self.kw("ATTRIBUTE") + self.ws() + s, self.b.attrs(*vals)

    def drop(self):
        if not self.has:
            return self.attribute()
        ns = self.pick(self.has, 1, 3)
        self.has = [n for n in self.has if n not in ns]
        return self.kw("REMOVE") + self.ws() + self.kw("ATTRIBUTE") + "".join(self.ws() + n for n in ns), self.b.drop(*ns)

    def again(self):
        """an attribute removed can be added with another type"""
        return self.attribute()

    def head(self, kw, lang=None):
        s = self.kw("ADD") + self.ws() + self.kw(kw) + self.ws()
        l = None
        if lang:
            l = self.rnd.choice(LANGS)
            s += l + self.ws()
        return s, [("lang", l)] if l else []

    def simple(self):
        ov, kw, lg = self.rnd.choice(SIMPLE)
        s, p = self.head(kw, lg)
        t, vals = self.pairs(self.unit if ov == "Unit" else self.value)
        return s + self.kw("ATTRS") + self.ws() + t, self.b.ov(ov, vals, p)

    def meta(self):
        s, p = self.head("META", True)
        out, vals = "", []
        for _ in range(self.rnd.randint(1, 3)):
            k = self.prop()
            w, v = self.value()
            out += (self.ws() if out else "") + k + self.eq() + w
            vals.append((k, v))
        return s + self.kw("PROPS") + self.ws() + out, self.b.ov("Meta", [], p + vals)

    def codes(self):
        xs = [self.text() for _ in range(self.rnd.choice((0, 1, 2, 3)))]
        return "[" + ("," + self.sp()).join(w for w, _ in xs) + "]", self.b.arr(*[v for _, v in xs])

    def object(self, f):
        out, vals = [], []
        for _ in range(self.rnd.choice((0, 1, 2, 3))):
            q = self.rnd.choice("\"'")
            k = ("{*%s}" if q == '"' else "{%s}") % self.fresh("o")
            w, v = f()
            out.append(q + k + q + ":" + self.sp() + w)
            vals.append((k, v))
        return ("{ }"[:1] + (self.sp() if out else "") + ("," + self.sp()).join(out) + (self.sp() if out else "") + "}"), self.b.obj(*vals)

    def entry_code(self):
        s, p = self.head("ENTRY_CODE")
        t, vals = self.pairs(lambda: self.rnd.choice([self.codes, self.codes, lambda: self.object(self.codes), self.value])(), "=")
        return s + self.kw("ATTRS") + self.ws() + t, self.b.ov("EntryCode", vals, p)

    def entry(self):
        s, p = self.head("ENTRY", True)
        t, vals = self.pairs(lambda: self.rnd.choice([lambda: self.object(self.text), lambda: self.object(self.text), self.value])(), "=")
        return s + self.kw("ATTRS") + self.ws() + t, self.b.ov("Entry", vals, p)

    def link(self):
        s, p = self.head("LINK")
        if self.rnd.random() < .5:
            i = "{SAID%s}" % self.fresh("s")
            tg, v = "refs:" + i, self.b.said(i)
        else:
            i = self.rnd.choice(["{%s}" % self.fresh("m"), "a/b:c.d-e_f"])
            tg, v = "refn:" + i, self.b.name(i)
        t, vals = self.pairs(self.value)
        return s + tg + self.ws() + self.kw("ATTRS") + self.ws() + t, self.b.ov("Link", vals, [("target", v)])

    def framing(self):
        s, _ = self.head("ATTR_FRAMING")
        ps = self.pick(["id", "label", "location", "version"])
        out, pv_ = "", []
        for k in ps:
            w, v = self.value()
            out += k + self.eq() + w + self.ws()
            pv_.append((k, v))
        nl = lambda: self.rnd.choice(["", " ", "\n", "\n    "]) if self.layout else ""

        def terms():
            ts, vs = [], []
            for _ in range(self.rnd.randint(1, 3)):
                t = "http://t/" + self.fresh("")
                fs, fv = [], []
                for k in self.pick(["predicate_id", "framing_justification", "other"], 1, 3):
                    w, v = self.text()
                    fs.append(f'"{k}":{self.sp()}{w}')
                    fv.append((k, v))
                ts.append(f'"{t}":{self.sp()}' + "{" + nl() + ("," + nl()).join(fs) + nl() + "}")
                vs.append((t, self.b.obj(*fv)))
            return "{" + nl() + ("," + nl()).join(ts) + nl() + "}", self.b.obj(*vs)
        t, vals = self.pairs(terms)
        return s + out + self.kw("ATTRS") + self.ws() + t, self.b.ov("AttributeFraming", vals, pv_)

    def classification(self):
        self.cls = True
        w, v = self.value()
        return self.kw("ADD") + self.ws() + self.kw("CLASSIFICATION") + self.ws() + w, self.b.cls(v)

    def unclassified(self):
        if not self.cls:
            return self.classification()
        self.cls = False
        return self.kw("REMOVE") + self.ws() + self.kw("CLASSIFICATION"), self.b.cls("", "Remove")

    def flagged(self):
        ns = [self.name() for _ in range(self.rnd.randint(1, 3))]
        q = lambda n: n if not self.layout or self.rnd.random() < .7 else self.rnd.choice(['"%s"', "'%s'"]) % n
        return self.kw("ADD") + self.ws() + self.kw("FLAGGED_ATTRIBUTES") + "".join(self.ws() + q(n) for n in ns), self.b.flags(*ns)

    def instruction(self):
        f = self.rnd.choice([self.attribute, self.attribute, self.drop, self.simple, self.simple, self.simple, self.simple, self.meta, self.meta, self.entry_code, self.entry_code, self.entry, self.entry,
                             self.link, self.framing, self.classification, self.unclassified, self.flagged])
        return f()

    def base(self):
        i = "{SAID%s}" % self.fresh("s")
        return self.kw("FROM") + self.rnd.choice([" ", "  ", "\t"]) + i, self.b.frm(i)

    def indent(self):
        return self.rnd.choice(["", "", " ", "    ", "\t", " \t"])

    def comment(self):
        """-> (lines, meta)"""
        k = self.rnd.randrange(6)
        if k < 3:
            return self.indent() + ["", "   ", "# ADD ATTRIBUTE a=Text", "# '\" \\", "#", "#-- name=x"][self.rnd.randrange(6)], []
        if k == 3:
            key = self.rnd.choice(["name", "version"])
            q = self.rnd.choice(["", '"', "'"])
            v = "{%s}" % self.fresh("v") if not q else self.rnd.choice([("x{*%s}" if q == '"' else "x {%s}") % self.fresh("v"), "a b # c"])
            return self.indent() + self.rnd.choice(["--", "-- ", "--  "]) + key + "=" + q + v + q, [(key, v)]
        return None, []

    def file(self):
        lines, cmds, meta = [], [], {}
        n = self.rnd.randint(1, 7)
        first = self.rnd.random() < .3
        for i in range(n):
            for _ in range(2):
                c, m = self.comment()
                if c is not None:
                    lines.append(c)
                    meta.update(m)
            t, c = self.base() if i == 0 and first else self.instruction()
            lines.append((self.indent() + t + ("" if t.endswith("\n") else self.indent()),))
            cmds.append(c)
        c, m = self.comment()
        if c is not None:
            lines.append(c)
            meta.update(m)
        elif self.rnd.random() < .5:
            lines.append("")
        return lines, cmds, list(meta.items())


def count(r, n):
    return n if r.tier == "quick" else n * 12


def read(r):
    f = of.parser(r)
    w = r.where(f)
    for i in range(count(r, 70)):
        d = Draw(r, random.Random(f"read{i}"), B(r))
        lines, cmds, meta = d.file()
        of.read_one(r, f"drawn:{i}", f, w, lines, cmds, meta)


def write(r):
    b = B(r)
    for i in range(count(r, 60)):
        d = Draw(r, random.Random(f"write{i}"), b, layout=False)
        cmds = [d.base()[1]] if d.rnd.random() < .3 else []
        cmds += [d.instruction()[1] for _ in range(d.rnd.randint(1, 6))]
        of.written(r, f"write:drawn:{i}", cmds)


def malformed(r):
    f = of.parser(r)
    w = r.where(f)
    n = 1 if r.tier == "quick" else 6
    for k, t in of.MALFORMED:
        for i in range(n):
            d = Draw(r, random.Random(f"malformed{k}{i}"), B(r))
            before = [d.instruction()[0] for _ in range(d.rnd.randint(0, 3))]
            after = [] if k.startswith("open") or "open" in k else [d.instruction()[0] for _ in range(d.rnd.randint(0, 3))]
            if k.startswith("remove-classification") and k != "remove-classification-twice":
                before = [x for x in before if "classification" not in x.lower()]
            t_ = T("\n".join(before + [t] + after))
            vs = of.parse(r, f"malformed:drawn:{k}:{i}", f, t_, w)
            r.ob(f"malformed:drawn:{k}:{i}", vs and all(only(v, 1) is not None for v in vs), w, f"must be an error: {pv(r.F, t_)[:300]}: " + "; ".join(pv(r.F, x)[:200] for x in vs))


# ------------------------------------------------------------------ transformation files
class TDraw(Draw):
    def tname(self):
        return self.rnd.choice(["{%s}" % self.fresh("n")] * 4 + [self.fresh("x.y-z_"), self.fresh("A."), self.fresh("0-")])

    def instruction(self):
        kind = self.rnd.choice(["Rename", "Link"])
        sep = "=" if kind == "Rename" else "->"
        names, out, kv = [], "", {}
        for _ in range(self.rnd.randint(1, 4)):
            a = self.rnd.choice(names) if names and self.rnd.random() < .2 else self.tname()
            b = self.rnd.choice(names) if names and self.rnd.random() < .2 else self.tname()
            names += [a, b]
            out += self.ws() + a + self.opt() + sep + self.opt() + b
            kv[a] = b
        return self.kw(kind) + self.ws() + self.kw("ATTRIBUTE") + out, tr.cmd(self.r, kind, *kv.items())

    def comment(self):
        if self.rnd.random() < .3:
            key = self.rnd.choice(["source", "target"])
            v = "refs:{SAID%s}" % self.fresh("m")
            q = self.rnd.choice(["", '"', "'"])
            return self.indent() + "--" + self.sp() + key + "=" + q + v + q, [(key, v)]
        return Draw.comment(self)

    def base(self):
        return self.instruction()


def transformations(r):
    f = tr.tparser(r)
    w = r.where(f)
    for i in range(count(r, 40)):
        d = TDraw(r, random.Random(f"transformation{i}"), None)
        lines, cmds, meta = d.file()
        tr.read_one(r, f"transformation:drawn:{i}", f, w, lines, cmds, meta)


def chosen(r):
    """drawn files of either kind, with the line that names their precompiler anywhere between the instructions"""
    for i in range(count(r, 16)):
        rnd = random.Random(f"chosen{i}")
        t = i % 2 == 1
        d = TDraw(r, rnd, None) if t else Draw(r, rnd, B(r))
        lines, _, _ = d.file()
        k = rnd.randint(0, len(lines))
        name = "transformation" if t else "semantics"
        q = rnd.choice(["", '"', "'"])
        if t or rnd.random() < .6:
            lines.insert(k, d.indent() + "--" + d.sp() + "precompiler" + d.rnd.choice(["=", " = ", "= "]) + q + name + q)
        text = "\n".join(x if isinstance(x, str) else x[0] for x in lines)
        tr.same(r, f"choose:drawn:{i}", text, tr.tparser(r) if t else r.fn("ocafile::parse_from_string", crate="oca_file_semantics"), "TransformationAst" if t else "SemanticsAst")
