"""OCAFILE text to commands and back: the parser of the current grammar applied to texts with arbitrary names and values."""
import re
from base import *
import apply as ap
import steps
import codec
import facade as fc

CRATE = "oca_file_semantics"


def T(s):
    """text from a template: {a} a word, {*a} any text, {SAIDa} an identifier"""
    return text(*[S("!" + x[1:-1]) if re.fullmatch(r"\{\*?\w+\}", x) else x for x in re.split(r"(\{\*?\w+\})", s) if x])


def parser(r, crate=CRATE):
    return r.fn("ocafile::parse_from_string", crate=crate)


def writer(r):
    return r.fn("ocafile::generate_from_ast", crate=CRATE)


class B:
    """commands as an author means them"""

    def __init__(self, r, ver=K("1.1")):
        self.r = r
        self.ver = ver
        self.t = codec.types(r)

    def v(self, s):
        return ap.val(self.r, T(s) if isinstance(s, str) else s)

    def vals(self, *kv):
        return some(mp(*[(T(k), x if isinstance(x, tuple) else self.v(x)) for k, x in kv]))

    def props(self, *kv):
        return self.vals(*kv)

    def ov(self, kind, attrs, props=(), do="Add"):
        return ap.command(self.r, do, ap.overlay(self.r, kind, ap.content(self.r, self.vals(*attrs), self.props(*props)), self.ver))

    def ty(self, t):
        r = self.r
        if t.startswith("Array["):
            return variant(r.F, NAT(r), "Array", self.ty(t[6:-1]))
        if t.startswith("refs:"):
            return variant(r.F, NAT(r), "Reference", variant(r.F, OA + "RefValue", "Said", T(t[5:])))
        if t.startswith("refn:"):
            return variant(r.F, NAT(r), "Reference", variant(r.F, OA + "RefValue", "Name", T(t[5:])))
        return variant(r.F, NAT(r), "Value", variant(r.F, ATT(r), t))

    def attrs(self, *kv):
        return ap.command(self.r, "Add", ap.capture(self.r, attributes=some(mp(*[(T(k), self.ty(t)) for k, t in kv]))))

    def drop(self, *ks):
        return ap.command(self.r, "Remove", ap.capture(self.r, attributes=some(mp(*[(T(k), variant(self.r.F, NAT(self.r), "Null")) for k in ks]))))

    def cls(self, s, do="Add"):
        return ap.command(self.r, do, ap.capture(self.r, properties=self.vals(("classification", s))))

    def flags(self, *ns):
        return ap.command(self.r, "Add", ap.capture(self.r, flagged=some(vec(*[T(n) for n in ns]))))

    def said(self, s):
        return ap.refsaid(self.r, T(s))

    def name(self, s):
        return variant(self.r.F, OA + "NestedValue", "Reference", variant(self.r.F, OA + "RefValue", "Name", T(s)))

    def obj(self, *kv):
        return ap.obj(self.r, *[(T(k), x if isinstance(x, tuple) else self.v(x)) for k, x in kv])

    def arr(self, *xs):
        return ap.arr(self.r, *[self.v(x) for x in xs])

    def frm(self, s):
        F = self.r.F
        ref = variant(F, OA + "ReferenceAttrType", "Reference", variant(F, OA + "RefValue", "Said", T(s)))
        return ap.command(self.r, "From", variant(F, OA + "ObjectKind", "OCABundle", struct(F, OA + "BundleContent", "", said=ref)))


def one_adt(r, name):
    xs = [a for a in r.F.adts if a.startswith("oca_ast_semantics::") and a.split("::")[-1] == name]
    if len(xs) != 1:
        raise Missing(f"type {name}")
    return xs[0]


def NAT(r):
    return one_adt(r, "NestedAttrType")


def ATT(r):
    return one_adt(r, "AttributeType")


SIMPLE = [("Label", "LABEL", "lang"), ("Information", "INFORMATION", "lang"), ("Unit", "UNIT", ""), ("Format", "FORMAT", ""),
          ("Conformance", "CONFORMANCE", ""), ("Conditional", "CONDITION", ""), ("Cardinality", "CARDINALITY", ""), ("CharacterEncoding", "CHARACTER_ENCODING", "")]


def instructions(r):
    """(key, instruction, what it means)"""
    b = B(r)
    out = []
    add = lambda k, t, *c: out.append((k, t, list(c)))
    for ty in ("Text", "Numeric", "Boolean", "Binary", "DateTime"):
        add("attribute:" + ty, f"ADD ATTRIBUTE {{a}}={ty} {{b}}=Array[{ty}]", b.attrs(("{a}", ty), ("{b}", f"Array[{ty}]")))
    add("attribute:dots", "ADD ATTRIBUTE x.y-z_1=Text", b.attrs(("x.y-z_1", "Text")))
    add("attribute:nested", "ADD ATTRIBUTE {a}=Array[Array[Numeric]] {b}=Array[Array[Array[refn:{n}]]]", b.attrs(("{a}", "Array[Array[Numeric]]"), ("{b}", "Array[Array[Array[refn:{n}]]]")))
    add("attribute:refs", "ADD ATTRIBUTE {a}=refs:{SAIDp} {b}=Array[refs:{SAIDq}] {c}=refn:{n}", b.attrs(("{a}", "refs:{SAIDp}"), ("{b}", "Array[refs:{SAIDq}]"), ("{c}", "refn:{n}")))
    add("attribute:spaces", "ADD ATTRIBUTE {a} = Text   {b}= Array[ Text ]", b.attrs(("{a}", "Text"), ("{b}", "Array[Text]")))
    add("attribute:order", "ADD ATTRIBUTE {c}=Text {a}=Text {b}=Text", b.attrs(("{c}", "Text"), ("{a}", "Text"), ("{b}", "Text")))
    for ov, kw, lg in SIMPLE:
        l, p = ("en ", [("lang", "en")]) if lg else ("", [])
        add("overlay:" + kw, f'ADD {kw} {l}ATTRS {{a}}="{{*x}}" {{b}}="{{*y}}"', b.ov(ov, [("{a}", "{*x}"), ("{b}", "{*y}")], p))
        add("overlay:" + kw + ":plain", f"ADD {kw} {l}ATTRS {{a}}={{w}}", b.ov(ov, [("{a}", "{w}")], p))
        add("overlay:" + kw + ":forms", f"ADD {kw} {l}ATTRS {{a}} = 'one \"two\" # 3' {{b}}=\"\" {{c}}=http://x.y/z-1_2 {{d}} = \"^\\\\d+ -- \\\\\"$\"".replace("\\\\", "\\"),
            b.ov(ov, [("{a}", 'one "two" # 3'), ("{b}", ""), ("{c}", "http://x.y/z-1_2"), ("{d}", '^\\d+ -- \\"$')], p))
        add("overlay:" + kw + ":case", f'add {kw.lower()} {l}attrs {{a}}="{{*x}}"', b.ov(ov, [("{a}", "{*x}")], p))
        add("overlay:" + kw + ":lines", f'ADD {kw} {l}\\\n  ATTRS \\\n    {{a}}="{{*x}}" \\\n# in between\n\n    {{b}}="{{*y}}"', b.ov(ov, [("{a}", "{*x}"), ("{b}", "{*y}")], p))
    add("overlay:UNIT:signs", "ADD UNIT ATTRS {a}=m^2 {b}=\u00b0C", b.ov("Unit", [("{a}", "m^2"), ("{b}", "\u00b0C")]))
    add("overlay:LABEL:region", 'ADD LABEL en-US ATTRS {a}="{*x}"', b.ov("Label", [("{a}", "{*x}")], [("lang", "en-US")]))
    add("overlay:META", 'ADD META fr PROPS name="{*x}" description="{*y}" {k}="{*z}"', b.ov("Meta", [], [("lang", "fr"), ("name", "{*x}"), ("description", "{*y}"), ("{k}", "{*z}")]))
    add("overlay:META:plain", "add Meta fr Props {k}={w} {j}='a b'", b.ov("Meta", [], [("lang", "fr"), ("{k}", "{w}"), ("{j}", "a b")]))
    add("overlay:ENTRY_CODE", 'ADD ENTRY_CODE ATTRS {a}=["{*x}", "{*y}"] {b}="{*z}" {c}={w} {d}=[] {e}=["{*v}"]',
        b.ov("EntryCode", [("{a}", b.arr("{*x}", "{*y}")), ("{b}", "{*z}"), ("{c}", "{w}"), ("{d}", b.arr()), ("{e}", b.arr("{*v}"))]))
    add("overlay:ENTRY_CODE:groups", 'ADD ENTRY_CODE ATTRS {a}={"{*g}": ["{*x}", "{*y}"], "{*h}": ["{*z}"]} {b}={}',
        b.ov("EntryCode", [("{a}", b.obj(("{*g}", b.arr("{*x}", "{*y}")), ("{*h}", b.arr("{*z}")))), ("{b}", b.obj())]))
    add("overlay:ENTRY", 'ADD ENTRY pl ATTRS {a}={"{*x}": "{*y}", "{*z}": "{*u}"} {b}="{*v}" {c}={w} {d}={}',
        b.ov("Entry", [("{a}", b.obj(("{*x}", "{*y}"), ("{*z}", "{*u}"))), ("{b}", "{*v}"), ("{c}", "{w}"), ("{d}", b.obj())], [("lang", "pl")]))
    add("overlay:LINK", 'ADD LINK refs:{SAIDp} ATTRS {a}="{*x}" {b}={w}', b.ov("Link", [("{a}", "{*x}"), ("{b}", "{w}")], [("target", b.said("{SAIDp}"))]))
    add("overlay:LINK:name", 'ADD LINK refn:{n} ATTRS {a}="{*x}"', b.ov("Link", [("{a}", "{*x}")], [("target", b.name("{n}"))]))
    fr = lambda *kv: b.obj(*kv)
    add("overlay:ATTR_FRAMING", 'ADD ATTR_FRAMING id={i} label="{*l}" location="{*o}" version=v1.2 ATTRS {a}={"http://t/1": {"predicate_id": "{*p}", "framing_justification": "{*j}"}, "http://t/2": {"predicate_id": "{*q}"}} {b}={"{wb}": {"predicate_id": "{*r}"}}'.replace("{wb}", "http://t/3"),
        b.ov("AttributeFraming", [("{a}", fr(("http://t/1", fr(("predicate_id", "{*p}"), ("framing_justification", "{*j}"))), ("http://t/2", fr(("predicate_id", "{*q}"))))), ("{b}", fr(("http://t/3", fr(("predicate_id", "{*r}")))))],
             [("id", "{i}"), ("label", "{*l}"), ("location", "{*o}"), ("version", "v1.2")]))
    add("overlay:ATTR_FRAMING:lines", 'ADD ATTR_FRAMING \\\n    id="{*i}" \\\n   label={l} \\\n  ATTRS \\\n  {a} = {\n     "http://t/1": {\n  "predicate_id": "{*p}",\n },\n  }\n  {b}={\n "http://t/2": {"predicate_id": "{*q}"}\n }\n',
        b.ov("AttributeFraming", [("{a}", fr(("http://t/1", fr(("predicate_id", "{*p}"))))), ("{b}", fr(("http://t/2", fr(("predicate_id", "{*q}")))))], [("id", "{*i}"), ("label", "{l}")]))
    add("flagged", "ADD FLAGGED_ATTRIBUTES {a} {b} {c}", b.flags("{a}", "{b}", "{c}"))
    add("flagged:case", "add flagged_attributes {a}", b.flags("{a}"))
    add("classification", "ADD CLASSIFICATION GICS:{w}", b.cls("GICS:{w}"))
    add("classification:text", 'ADD CLASSIFICATION "{*w}"', b.cls("{*w}"))
    add("remove:LABEL", "REMOVE LABEL en ATTRS {a} {b}", b.ov("Label", [("{a}", ""), ("{b}", "")], [("lang", "en")], do="Remove"))
    add("remove:LABEL:all", "REMOVE LABEL en", b.ov("Label", [], [("lang", "en")], do="Remove"))
    add("remove:META", "remove meta fr props {k} {j}", b.ov("Meta", [], [("lang", "fr"), ("{k}", ""), ("{j}", "")], do="Remove"))
    add("from", "FROM {SAIDp}", b.frm("{SAIDp}"))
    add("from:case", "from {SAIDp}", b.frm("{SAIDp}"))
    return out


def norm(r, v):
    """content without attributes is content with no attributes"""
    F = r.F
    if v is None or v[0] != "a":
        return v
    if v[1] == OA + "Content" and len(v[2]) == 1:
        a = F.adts[v[1]]["v"][0]["f"]
        fs = list(v[2][0][1])
        for j, f in enumerate(a):
            if f["n"] in ("attributes", "properties") and fs[j] == NONE:
                fs[j] = some(mp())
        return ("a", v[1], ((0, tuple(norm(r, x) for x in fs)),))
    if v[1] == OA + "OCAAst" or v[1].startswith("oca_ast_semantics"):
        return ("a", v[1], tuple((i, tuple(norm(r, x) for x in fs)) for i, fs in v[2]))
    return v


def vt(r, v):
    if v is not None and v[0] == "t":
        return ("t", tuple(norm(r, x) for x in v[1]))
    return v


def parse(r, key, f, t, w, total=True):
    """-> list of results; no reachable panic"""
    outs = r.run(f, [t], parts=400)
    un = sorted(k for k in r.ip.unmodelled if k.startswith("pest ") or k.startswith("pest:"))
    un = [k for k in un if not k.startswith("pest::error")]
    r.ob(key + ":grammar", not un, w, f"the grammar does not decide {pv(r.F, t)[:200]}: {un}")
    if total:
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
        r.ob(key + ":total", not pn, w, f"reading can panic: {pn} on {pv(r.F, t)[:200]}")
    return [v for _, v in outs]


def read_one(r, key, f, w, lines, cmds, meta=()):
    """lines: pieces of the text, each either layout (str) or (instruction); cmds in the same order as the instructions"""
    F = r.F
    src, ln, at = [], 1, []
    for x in lines:
        s = x if isinstance(x, str) else x[0]
        if not isinstance(x, str):
            at.append((ln, s))
        ln += s.count("\n") + 1
        src.append(s)
    t = T("\n".join(src))
    vs = parse(r, key, f, t, w)
    v = only(vs[0], 0) if len(vs) == 1 else None
    if not r.ob(key + ":accepted", v is not None, w, f"must be read on every path: {pv(F, t)[:300]}: " + "; ".join(pv(F, x)[:300] for x in vs)):
        return None
    r.eq(key + ":commands", vt(r, field(F, v, "commands")), vec(*[norm(r, c) for c in cmds]), w, f"commands of {pv(F, t)[:200]}")
    mv = field(F, v, "meta")
    r.ob(key + ":meta", mv is not None and mv[0] == "m" and {(a, b) for a, b in mv[1]} == {(K(k), T(x)) for k, x in meta}, w, f"meta comments of the text: {pv(F, mv)}, expected {meta}")
    cm = field(F, v, "commands_meta")
    want = {K(i): (K(n), T(s.strip(" \t\n"))) for i, (n, s) in enumerate(at)}
    ok = cm is not None and cm[0] == "m" and {k for k, _ in cm[1]} == set(want)
    if r.ob(key + ":lines", ok, w, f"every command has its place: {pv(F, cm)[:300]}"):
        for k, x in cm[1]:
            r.eq(key + f":line:{k[1]}", field(F, x, "line_number"), want[k][0], w, f"line of command {k[1]}")
            got = field(F, x, "raw_line")
            r.ob(key + f":raw:{k[1]}", got is not None and strip(got) == want[k][1], w, f"text of command {k[1]}: {pv(F, got)[:300]}, expected {pv(F, want[k][1])[:300]}")
    return v


def framing_case(r, f, w, b):
    """term identifiers are kept as written; everything else of such a command must be right whether or not they are"""
    F = r.F
    t = T('ADD ATTR_FRAMING id=x ATTRS {a}={"http://T/Xy": {"Predicate_id": "{*p}"}}')
    mk = lambda k, p: norm(r, b.ov("AttributeFraming", [("{a}", b.obj((k, b.obj((p, "{*p}")))))], [("id", "x")]))
    vs = parse(r, "read:framing-case", f, t, w)
    v = only(vs[0], 0) if len(vs) == 1 else None
    got = vt(r, field(F, v, "commands")) if v is not None else None
    a, z = mk("http://T/Xy", "Predicate_id"), mk("http://t/xy", "predicate_id")
    r.ob("read:framing-case:rest", got in (vec(a), vec(z)), w, f"commands of {pv(F, t)}: {pv(F, got)[:300]}")
    r.ob("read:framing-case:kept", got != vec(z), w, f"the identifiers of framing terms are changed: {pv(F, t)} is read as {pv(F, got)[:300]}")


def meta_lang(r, f, w, b):
    """metadata of any name is metadata, the language is the one stated before PROPS"""
    F = r.F
    t = T('ADD META en PROPS {k}="{*y}" lang="fr"')
    vs = parse(r, "read:meta-lang", f, t, w)
    v = only(vs[0], 0) if len(vs) == 1 else None
    got = vt(r, field(F, v, "commands")) if v is not None else None
    bad = norm(r, b.ov("Meta", [], [("lang", "fr"), ("{k}", "{*y}")]))
    r.ob("read:meta-lang:language", got != vec(bad), w, f"metadata named lang replaces the language: {pv(F, t)} is read as {pv(F, got)[:300]}")


def strip(v):
    """text without white space at its end"""
    if v[0] == "k" and isinstance(v[1], str):
        return K(v[1].rstrip())
    if v[0] == "cat" and v[1][-1][0] == "k":
        return text(*(v[1][:-1] + (K(v[1][-1][1].rstrip()),)))
    return v


def read(r):
    f = parser(r)
    w = r.where(f)
    b = B(r)
    ins = instructions(r)
    for key, t, c in ins:
        read_one(r, "read:" + key, f, w, [(t,)], c)
        read_one(r, "read:" + key + ":placed", f, w, ["-- name={nm}", "# a comment = \"x\" ADD", "", "  # another", (t,), "", "# end", ""], c, [("name", "{nm}")])
    read_one(r, "read:empty", f, w, [""], [])
    read_one(r, "read:blank", f, w, ["", "  \t", "# only", "-- version=0.1", ""], [], [("version", "0.1")])
    read_one(r, "read:meta", f, w, ["-- name={n}", "--version=1.2", '-- precompiler="semantics"', ("ADD ATTRIBUTE {a}=Text",)], [b.attrs(("{a}", "Text"))],
             [("name", "{n}"), ("version", "1.2"), ("precompiler", "semantics")])
    read_one(r, "read:meta:text", f, w, ['-- name="x{*n}"', ("ADD ATTRIBUTE {a}=Text",)], [b.attrs(("{a}", "Text"))], [("name", "x{*n}")])
    read_one(r, "read:meta:single", f, w, [("ADD ATTRIBUTE {a}=Text",), "-- name='two words'"], [b.attrs(("{a}", "Text"))], [("name", "two words")])
    read_one(r, "read:meta:last", f, w, ["-- name=x", "-- name={n}"], [], [("name", "{n}")])
    framing_case(r, f, w, b)
    meta_lang(r, f, w, b)
    # a whole file
    seq = [x for x in ins if not x[0].startswith(("attribute", "from", "flagged:", "classification:"))]
    lines = ["-- name={nm}", ("FROM {SAIDf}",), ("ADD ATTRIBUTE {a}=Text {b}=Numeric \\\n   {c}=Array[refs:{SAIDq}]",), ""]
    cmds = [b.frm("{SAIDf}"), b.attrs(("{a}", "Text"), ("{b}", "Numeric"), ("{c}", "Array[refs:{SAIDq}]"))]
    for k, t, c in seq:
        if t.endswith("\n"):
            t = t[:-1]
        lines.append((t,))
        cmds += c
        if k.endswith(("plain", "case")):
            lines.append("# after " + k)
    lines += [("REMOVE ATTRIBUTE {c} {a}",), ("ADD ATTRIBUTE {a}=Boolean",), ("remove classification",), ("REMOVE Attribute {b}",), ""]
    cmds += [b.drop("{c}", "{a}"), b.attrs(("{a}", "Boolean")), b.cls("", "Remove"), b.drop("{b}")]
    read_one(r, "read:file", f, w, lines, cmds, [("name", "{nm}")])


MALFORMED = [
    ("keyword", "FOO {a}"), ("bare", "ADD"), ("bare-remove", "REMOVE"), ("no-overlay", "ADD FOO ATTRS {a}=x"), ("modify", "MODIFY {a}"), ("modify-word", "MODIFYx"),
    ("no-language", 'ADD LABEL ATTRS {a}="{*x}"'), ("long-language", 'ADD LABEL eng ATTRS {a}="{*x}"'), ("no-attrs", "ADD LABEL en"), ("no-pairs", "ADD LABEL en ATTRS"),
    ("no-value", "ADD UNIT ATTRS {a}="), ("no-equals", "ADD UNIT ATTRS {a}"), ("open-text", 'ADD FORMAT ATTRS {a}="{*x}'),
    ("type", "ADD ATTRIBUTE {a}=Word"), ("no-type", "ADD ATTRIBUTE {a}"), ("array", "ADD ATTRIBUTE {a}=Array[Text"), ("two-types", "ADD ATTRIBUTE {a}=Array[Text, Text]"), ("lower-type", "ADD ATTRIBUTE {a}=text"),
    ("bad-said", "ADD ATTRIBUTE {a}=refs:digest"), ("bad-said-array", "ADD ATTRIBUTE {a}=Array[refs:digest]"), ("no-said", "ADD ATTRIBUTE {a}=refs:"), ("bad-link", 'ADD LINK refs:digest ATTRS {a}="{*x}"'), ("bad-from", "FROM digest"), ("no-from", "FROM"), ("from-name", "FROM refn:x y"),
    ("open-list", 'ADD ENTRY_CODE ATTRS {a}=["{*x}"'), ("open-object", 'ADD ENTRY en ATTRS {a}={"{*x}": "{*y}"'), ("word-list", "ADD ENTRY_CODE ATTRS {a}=[x, y]"), ("entry-list", 'ADD ENTRY en ATTRS {a}=["{*x}"]'),
    ("no-target", 'ADD LINK ATTRS {a}="{*x}"'), ("bare-target", 'ADD LINK {n} ATTRS {a}="{*x}"'), ("framing-plain", 'ADD ATTR_FRAMING id=x ATTRS {a}="{*x}"'), ("framing-key", 'ADD ATTR_FRAMING foo=x ATTRS {a}={"http://t": {"p": "{*x}"}}'), ("framing-empty", "ADD ATTR_FRAMING id=x ATTRS {a}={}"),
    ("meta-key", "-- foo=x\nADD ATTRIBUTE {a}=Text"), ("meta-value", "-- name=\nADD ATTRIBUTE {a}=Text"), ("meta-empty", '-- name=""\nADD ATTRIBUTE {a}=Text'), ("meta-nothing", "--\nADD ATTRIBUTE {a}=Text"), ("meta-words", "-- name=a b\nADD ATTRIBUTE {a}=Text"),
    ("twice", "ADD ATTRIBUTE {a}=Text\nADD ATTRIBUTE {b}=Text {a}=Numeric"), ("remove-unknown", "ADD ATTRIBUTE {a}=Text\nREMOVE ATTRIBUTE {b}"), ("remove-part", "ADD ATTRIBUTE {a}=Text\nREMOVE ATTRIBUTE {a} {b}"), ("remove-twice", "ADD ATTRIBUTE {a}=Text\nREMOVE ATTRIBUTE {a}\nREMOVE ATTRIBUTE {a}"),
    ("remove-many-twice", "ADD ATTRIBUTE {a}=Text {b}=Text {c}=Text\nREMOVE ATTRIBUTE {a} {b}\nADD UNIT ATTRS {c}=m\nREMOVE ATTRIBUTE {b}"), ("remove-last-unknown", "ADD ATTRIBUTE {a}=Text {b}=Text\nREMOVE ATTRIBUTE {a}\nREMOVE ATTRIBUTE {b} {a}"),
    ("add-second", "ADD ATTRIBUTE {a}=Text\nADD ATTRIBUTE {b}=Text\nREMOVE ATTRIBUTE {b}\nADD ATTRIBUTE {c}=Text {a}=Text"), ("add-back-twice", "ADD ATTRIBUTE {a}=Text\nREMOVE ATTRIBUTE {a}\nADD ATTRIBUTE {a}=Numeric\nADD ATTRIBUTE {a}=Numeric"),
    ("remove-classification-twice", "ADD CLASSIFICATION x\nREMOVE CLASSIFICATION\nREMOVE CLASSIFICATION"),
    ("remove-classification", "ADD ATTRIBUTE {a}=Text\nREMOVE CLASSIFICATION"), ("remove-unit", "ADD ATTRIBUTE {a}=Text\nREMOVE UNIT ATTRS {a}=x"), ("remove-link", 'REMOVE LINK refs:{SAIDp} ATTRS {a}="x"'),
    ("trailing", "ADD ATTRIBUTE {a}=Text foo"), ("same-line", "ADD ATTRIBUTE {a}=Text ADD ATTRIBUTE {b}=Text"), ("no-continuation", "ADD LABEL en\n  ATTRS {a}=x"), ("middle", "ADD ATTRIBUTE {a}=Text\nFOO\nADD ATTRIBUTE {b}=Text"), ("indented-end", "ADD ATTRIBUTE {a}=Text\nADD LABEL en ATTRS {a}=\"{*x}\" ]"),
]


def malformed(r):
    f = parser(r)
    w = r.where(f)
    for k, t in MALFORMED:
        t = T(t)
        vs = parse(r, "malformed:" + k, f, t, w)
        r.ob("malformed:" + k, vs and all(only(v, 1) is not None for v in vs), w, f"must be an error: {pv(r.F, t)[:200]}: " + "; ".join(pv(r.F, x)[:200] for x in vs))


def write(r):
    """commands written as text are read back as the same commands"""
    F = r.F
    g, f = writer(r), parser(r)
    w = r.where(g)
    b = B(r)
    ins = [(k, c) for k, t, c in instructions(r) if not k.startswith(("from", "remove")) and not k.endswith((":case", ":plain", ":lines", ":forms", ":spaces", ":placed"))]
    cases = [(k, c) for k, c in ins]
    cases += [("overlay:" + kw + ":empty", [b.ov(ov, [("{a}", ""), ("{b}", "x -- y # z = 'q' {} []")], [("lang", "en")] if lg else [])]) for ov, kw, lg in SIMPLE]
    cases += [("from", [b.frm("{SAIDp}")]), ("remove", [b.attrs(("{a}", "Text"), ("{b}", "Text"), ("{c}", "Text")), b.drop("{a}", "{c}")]), ("remove-classification", [b.cls("{*x}"), b.cls("", "Remove")])]
    # texts that a reader can meet: with double quotes (from a single quoted text), with single quotes, with escapes, with line breaks
    for n, t in (("double", 'one "two" three'), ("single", "it's"), ("escape", 'a \\" b \\n c \\\\'), ("line", "one\ntwo -- # \\x"), ("both", "it's \\\"x\\\"")):
        q = t
        cases.append(("text:" + n, [b.ov("Label", [("{a}", q)], [("lang", "en")]), b.ov("Meta", [], [("lang", "en"), ("name", q)]), b.ov("EntryCode", [("{a}", b.arr(q)), ("{b}", b.obj((q, b.arr(q))))]), b.ov("Unit", [("{a}", q)]),
                                    b.ov("Entry", [("{a}", b.obj((q, q)))], [("lang", "en")]), b.ov("Link", [("{a}", q)], [("target", b.said("{SAIDp}"))]), b.cls(q)]))
        cases.append(("text:framing:" + n, [b.ov("AttributeFraming", [("{a}", b.obj(("http://t/1", b.obj(("predicate_id", q)))))], [("id", q), ("label", q)])]))
    cases += [("nothing", [])]
    full = [b.frm("{SAIDf}"), b.attrs(("{a}", "Text"), ("{b}", "Array[Numeric]"), ("{c}", "refs:{SAIDq}"), ("{d}", "DateTime"), ("{e}", "Binary"))]
    for k, c in ins:
        if not k.startswith("attribute"):
            full += c
    full += [b.drop("{a}"), b.attrs(("{a}", "Boolean"))]
    cases.append(("file", full))
    for k, cmds in cases:
        written(r, "write:" + k, cmds)


def written(r, key, cmds):
    """these commands, written as text, are read back"""
    F = r.F
    g, f = writer(r), parser(r)
    w = r.where(g)
    outs = r.run(g, [Ref(steps.ast(r, cmds), "ast")], parts=400)
    pn = sorted({f"{x[1]} at {x[0].split('::')[-1]}" for x in r.ip.panics})
    r.ob(key + ":total", not pn, w, f"writing can panic: {pn}")
    ts = [v for _, v in outs]
    if not r.ob(key + ":text", len(ts) == 1 and ts[0] is not None and ts[0][0] in ("k", "cat", "s"), w, f"the text is not determined: {[pv(F, x)[:300] for x in ts]}"):
        return
    vs = parse(r, key, f, ts[0], w)
    v = only(vs[0], 0) if len(vs) == 1 else None
    if r.ob(key + ":readable", v is not None, w, f"the text must be readable: {pv(F, ts[0])[:300]}: " + "; ".join(pv(F, x)[:300] for x in vs)):
        r.eq(key + ":same", vt(r, field(F, v, "commands")), vec(*[norm(r, c) for c in cmds]), w, f"commands read back from {pv(F, ts[0])[:200]}")
