"""Transformation files: reading them, choosing the reader of a file by its precompiler line, building transformations."""
from base import *
from ocafile import T, parse, strip, MALFORMED
import seal as sl

TC = "oca_file_transformation"
TA = "oca_ast_transformation::ast::"


def tparser(r):
    return r.fn("ocafile::parse_from_string", crate=TC)


def chooser(r):
    return r.fn("ocafile::parse_from_string", crate="oca_file")


def cmd(r, kind, *kv):
    F = r.F
    c = struct(F, TA + kind + "Content", "", attributes=some(mp(*[(T(a), T(b)) for a, b in kv])))
    return struct(F, TA + "Command", "", kind=variant(F, TA + "CommandType", kind), object_kind=variant(F, TA + "ObjectKind", kind, c))


LINES = [
    ("rename", "RENAME ATTRIBUTE {a}={b}", "Rename", [("{a}", "{b}")]),
    ("rename:many", "RENAME ATTRIBUTE {a}={b} {c} = {d}  {e}= {f}", "Rename", [("{a}", "{b}"), ("{c}", "{d}"), ("{e}", "{f}")]),
    ("rename:case", "rename attribute {a}={b}", "Rename", [("{a}", "{b}")]),
    ("rename:lines", "RENAME \\\n  ATTRIBUTE \\\n  {a}={b} \\\n# between\n\n  {c} = \\\n  {d}", "Rename", [("{a}", "{b}"), ("{c}", "{d}")]),
    ("rename:chars", "RENAME ATTRIBUTE a-b_1=C-2_d", "Rename", [("a-b_1", "C-2_d")]),
    ("rename:dots", "RENAME ATTRIBUTE a.b={c} {d}=-x.", "Rename", [("a.b", "{c}"), ("{d}", "-x.")]),
    ("link:tight", "LINK ATTRIBUTE {a}->{b} x--> -y c.d->{e}", "Link", [("{a}", "{b}"), ("x-", "-y"), ("c.d", "{e}")]),
    ("rename:swap", "RENAME ATTRIBUTE {a}={b} {b}={a}", "Rename", [("{a}", "{b}"), ("{b}", "{a}")]),
    ("rename:twice", "RENAME ATTRIBUTE {a}={b} {c}={b}", "Rename", [("{a}", "{b}"), ("{c}", "{b}")]),
    ("link", "LINK ATTRIBUTE {aw} -> {b}", "Link", [("{aw}", "{b}")]),
    ("link:many", "LINK ATTRIBUTE {aw} -> {b} \\\n {cw} -> {d}", "Link", [("{aw}", "{b}"), ("{cw}", "{d}")]),
    ("link:lines", "link Attribute {aw} \\\n# x\n -> \\\n {b}", "Link", [("{aw}", "{b}")]),
]


def read_one(r, key, f, w, lines, cmds, meta):
    F = r.F
    src, ln, at = [], 1, []
    for x in lines:
        s = x if isinstance(x, str) else x[0]
        if not isinstance(x, str):
            at.append((ln, s))
        ln += s.count("\n") + 1
        src.append(s)
    t = T("\n".join(src))
    vs = parse(r, key, f, t, w)
    v = only(vs[0], 0) if len(vs) == 1 else None
    if not r.ob(key + ":accepted", v is not None, w, f"must be read on every path: {pv(F, t)[:300]}: " + "; ".join(pv(F, x)[:300] for x in vs)):
        return
    r.eq(key + ":commands", field(F, v, "commands"), vec(*cmds), w, f"commands of {pv(F, t)[:200]}")
    mv = field(F, v, "meta")
    r.ob(key + ":meta", mv is not None and mv[0] == "m" and set(mv[1]) == {(K(k), T(x)) for k, x in meta}, w, f"meta comments: {pv(F, mv)}, expected {meta}")
    cm = field(F, v, "commands_meta")
    if r.ob(key + ":places", cm is not None and cm[0] == "m" and {k for k, _ in cm[1]} == {K(i) for i in range(len(at))}, w, f"every command has its place: {pv(F, cm)[:300]}"):
        for k, x in cm[1]:
            n, s = at[k[1]]
            r.eq(key + f":line:{k[1]}", field(F, x, "line_number"), K(n), w, f"line of command {k[1]}")
            got = field(F, x, "raw_line")
            r.ob(key + f":raw:{k[1]}", got is not None and strip(got) == T(s.strip(" \t\n")), w, f"text of command {k[1]}: {pv(F, got)[:300]}, expected {s}")


BAD = [("keyword", "FOO"), ("add", "ADD ATTRIBUTE {a}=Text"), ("bare", "RENAME"), ("no-pairs", "RENAME ATTRIBUTE"), ("no-new", "RENAME ATTRIBUTE {a}="), ("no-old", "RENAME ATTRIBUTE ={a}"), ("one-name", "RENAME ATTRIBUTE {a}"),
       ("arrow", "RENAME ATTRIBUTE {aw} -> {b}"), ("equals", "LINK ATTRIBUTE {aw}={b}"), ("overlay", "RENAME LABEL {a}={b}"), ("text", 'RENAME ATTRIBUTE {a}="{*x}"'), ("three", "RENAME ATTRIBUTE {a}={b}={c}"),
       ("trailing", "RENAME ATTRIBUTE {a}={b} {c}"), ("link-one", "LINK ATTRIBUTE {a}"), ("from", "FROM {SAIDx}"), ("meta-key", "-- foo=x\nRENAME ATTRIBUTE {a}={b}"), ("meta-empty", "-- source=\nRENAME ATTRIBUTE {a}={b}"),
       ("meta-quotes", "-- source=\"\"\nRENAME ATTRIBUTE {a}={b}"), ("meta-nothing", "--\nRENAME ATTRIBUTE {a}={b}"), ("middle", "RENAME ATTRIBUTE {a}={b}\nFOO\nRENAME ATTRIBUTE {a}={b}")]


def read(r):
    f = tparser(r)
    w = r.where(f)
    for key, t, kind, kv in LINES:
        c = cmd(r, kind, *kv)
        read_one(r, "transformation:" + key, f, w, [(t,)], [c], [])
        read_one(r, "transformation:" + key + ":placed", f, w, ["-- name={nm}", "-- source=refs:{SAIDs}", '-- target="refs:{SAIDt}"', "# note RENAME", "", (t,), "", "# end"], [c],
                 [("name", "{nm}"), ("source", "refs:{SAIDs}"), ("target", "refs:{SAIDt}")])
    read_one(r, "transformation:empty", f, w, [""], [], [])
    read_one(r, "transformation:file", f, w, ["-- version=1.0"] + [x for _, t, _, _ in LINES for x in ((t,), "# next")], [cmd(r, k, *kv) for _, _, k, kv in LINES], [("version", "1.0")])
    for k, t in BAD:
        t = T(t)
        vs = parse(r, "transformation:malformed:" + k, f, t, w)
        r.ob("transformation:malformed:" + k, vs and all(only(v, 1) is not None for v in vs), w, f"must be an error: {pv(r.F, t)[:200]}: " + "; ".join(pv(r.F, x)[:200] for x in vs))


SEMANTIC = ['ADD ATTRIBUTE {a}=Text {b}=Array[Numeric]\nADD LABEL en ATTRS {a}="{*x}"\n# note\n\nADD UNIT ATTRS {b}=m\n', 'ADD LABEL en ATTRS {a}="x -- precompiler=transformation # y"\n', "ADD META en PROPS {k}='-- precompiler=foo'\n",
            "ADD ENTRY_CODE ATTRS {a}=[\"-- name=x\", \"--\"]\n", "# -- precompiler=transformation\nADD ATTRIBUTE {a}=Text\n", "", "\n\n",
            "ADD META en PROPS {k}= \\\n  --n {l}='x\n-- precompiler=foo' \\\n# it's\n -- {m}=y\n".replace(" -- {m}", " {m}"), "ADD LABEL en ATTRS {a}=\"x\n-- precompiler=transformation\n\"\n", "ADD UNIT ATTRS {a}=5'\n# it's\nADD UNIT ATTRS {b}=6'\n"]
TRANSFORM = ["RENAME ATTRIBUTE {a}={b}\nLINK ATTRIBUTE {aw} -> {b}\n", "# -- precompiler=semantics\nRENAME ATTRIBUTE {a}={b} \\\n# -- x\n {c}={d}\n", ""]


def ast_type(r):
    ast = [a for a in r.F.adts if a.startswith("oca_file::") and a.split("::")[-1] == "OCAAst"]
    if len(ast) != 1:
        raise Missing("type oca_file::ocafile::OCAAst")
    return ast[0]


def same(r, key, t, sub, kind):
    F = r.F
    f, ast, w = chooser(r), ast_type(r), r.where(chooser(r))
    t = T(t)
    want = [v for v in parse(r, key + ":direct", sub, t, w)]
    got = parse(r, key, f, t, w)
    a, b = (only(want[0], 0) if len(want) == 1 else None), (only(got[0], 0) if len(got) == 1 else None)
    if r.ob(key + ":read", a is not None and b is not None, w, f"{pv(F, t)[:300]} must be read as {kind}: " + "; ".join(pv(F, x)[:300] for x in want + got)):
        r.eq(key + ":same", b, variant(F, ast, kind, a), w, f"{pv(F, t)[:200]} read as {kind}")


def choose(r):
    """the file goes to the reader its precompiler line names, and comes back as that reader reads it"""
    F = r.F
    f, fs, ft = chooser(r), r.fn("ocafile::parse_from_string", crate="oca_file_semantics"), tparser(r)
    w = r.where(f)
    for i, t in enumerate(SEMANTIC):
        same(r, f"choose:semantics:{i}:none", t, fs, "SemanticsAst")
        same(r, f"choose:semantics:{i}:other-meta", "-- name={nm}\n-- version=1.0\n" + t, fs, "SemanticsAst")
        same(r, f"choose:semantics:{i}:named", "-- precompiler=semantics\n" + t, fs, "SemanticsAst")
        same(r, f"choose:semantics:{i}:quoted", '-- name={nm}\n\n  -- precompiler="semantics"\n' + t, fs, "SemanticsAst")
        same(r, f"choose:semantics:{i}:last", t + "\n-- precompiler=semantics", fs, "SemanticsAst")
    for i, t in enumerate(TRANSFORM):
        same(r, f"choose:transformation:{i}:named", "-- precompiler=transformation\n" + t, ft, "TransformationAst")
        same(r, f"choose:transformation:{i}:quoted", "-- version=0.1\n-- source=refs:{SAIDs}\n\n-- precompiler='transformation'\n-- target=refs:{SAIDt}\n" + t, ft, "TransformationAst")
        same(r, f"choose:transformation:{i}:last", t + "\n--precompiler=transformation", ft, "TransformationAst")
    bad = [("unknown", "-- precompiler=foo\nADD ATTRIBUTE {a}=Text\n"), ("unknown-empty", "-- precompiler=Semantics\n"), ("unknown-longer", "-- precompiler=transformation-v2\nRENAME ATTRIBUTE {a}={b}\n"), ("unknown-shorter", "-- precompiler=transform\nRENAME ATTRIBUTE {a}={b}\n"), ("unknown-case", "-- precompiler=TRANSFORMATION\nRENAME ATTRIBUTE {a}={b}\n"),
           ("unknown-semantic", "-- precompiler=semantics-2\nADD ATTRIBUTE {a}=Text\n"), ("unknown-blank-start", "-- precompiler=' transformation'\nRENAME ATTRIBUTE {a}={b}\n"), ("unknown-blank-end", "-- precompiler=\"transformation \"\nRENAME ATTRIBUTE {a}={b}\n"), ("unknown-blank", "-- precompiler=\"semantics \"\nADD ATTRIBUTE {a}=Text\n"), ("unknown-word", "-- precompiler=x{w}\nADD ATTRIBUTE {a}=Text\n"), ("unknown-both", "-- precompiler=semantics/transformation\n"), ("no-value", "-- precompiler=\nADD ATTRIBUTE {a}=Text\n"), ("rename", "RENAME ATTRIBUTE {a}={b}\n"), ("add", "-- precompiler=transformation\nADD ATTRIBUTE {a}=Text\n"),
           ("meta-key", "-- foo=bar\nADD ATTRIBUTE {a}=Text\n"), ("source", "-- source=refs:{SAIDs}\nADD ATTRIBUTE {a}=Text\n"), ("rename-named", "-- precompiler=semantics\nRENAME ATTRIBUTE {a}={b}\n")]
    bad += [("semantics-" + k, t.replace("{*x}", "{x}") if k == "open-text" else t) for k, t in MALFORMED] + [("transformation-" + k, "-- precompiler=transformation\n" + t) for k, t in BAD]
    for k, t in bad:
        t = T(t)
        vs = parse(r, "choose:bad:" + k, f, t, w)
        r.ob("choose:bad:" + k, vs and all(only(v, 1) is not None for v in vs), w, f"must be an error: {pv(F, t)[:200]}: " + "; ".join(pv(F, x)[:200] for x in vs))


# ------------------------------------------------------------------ building
def tast(r, cmds, meta=()):
    F = r.F
    cm = mp(*[(K(i), struct(F, TA + "CommandMeta", "", line_number=K(10 + i), raw_line=S(f"!line{i}"))) for i in range(len(cmds))])
    return struct(F, TA + "TransformationAST", "", version=K("1.0.0"), commands=vec(*cmds), commands_meta=cm, meta=mp(*[(K(k), T(x)) for k, x in meta]))


def version_panic(k):
    """the derived computation of identifiers unwraps the version string it makes out of constants"""
    return "::TransformationTMP as core::convert::From<" in k[0]


def build(r):
    F = r.F
    f = r.fn("build::from_ast", crate="transformation_file")
    w = r.where(f)
    both = [("source", "refs:{SAIDs}"), ("target", "refs:{SAIDt}")]
    st = lambda s, t: (some(T(s)), some(T(t)))
    cases = [
        ("rename", [cmd(r, "Rename", ("{a}", "{b}"), ("{c}", "{d}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{b}"), ("{c}", "{d}")]),
        ("link", [cmd(r, "Link", ("{a}", "{b}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{b}")]),
        ("mixed", [cmd(r, "Rename", ("{a}", "{b}")), cmd(r, "Link", ("{c}", "{d}"), ("{e}", "{f}")), cmd(r, "Rename", ("{g}", "{h}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{b}"), ("{c}", "{d}"), ("{e}", "{f}"), ("{g}", "{h}")]),
        ("swap", [cmd(r, "Rename", ("{a}", "{b}"), ("{b}", "{a}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{b}"), ("{b}", "{a}")]),
        ("again", [cmd(r, "Rename", ("{a}", "{b}")), cmd(r, "Link", ("{a}", "{c}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{c}")]),
        ("plain", [cmd(r, "Rename", ("{a}", "{b}"))], [("source", "{SAIDs}"), ("target", "{SAIDt}"), ("name", "{n}")], st("{SAIDs}", "{SAIDt}"), [("{a}", "{b}")]),
        ("no-meta", [cmd(r, "Rename", ("{a}", "{b}"))], [], (NONE, NONE), [("{a}", "{b}")]),
        ("none", [], both, st("{SAIDs}", "{SAIDt}"), []),
        ("itself", [cmd(r, "Link", ("{a}", "{a}"), ("{b}", "{b}")), cmd(r, "Rename", ("{c}", "{c}"))], both, st("{SAIDs}", "{SAIDt}"), [("{a}", "{a}"), ("{b}", "{b}"), ("{c}", "{c}")]),
    ]
    import random
    for i in range(12 if r.tier == "quick" else 200):
        rnd = random.Random(f"build{i}")
        cs, want = [], {}
        for _ in range(rnd.randint(1, 5)):
            kv = [(a, rnd.choice("abcdef")) for a in rnd.sample("abcdef", rnd.randint(1, 4))]
            cs.append(cmd(r, rnd.choice(["Rename", "Link"]), *[("{%s}" % a, "{%s}" % b) for a, b in kv]))
            want.update(kv)
        more = rnd.sample([("name", "{nm}"), ("version", "1.{w}"), ("precompiler", "transformation")], rnd.randint(0, 3))
        m = more + both if rnd.random() < .5 else both + more
        cases.append((f"drawn:{i}", cs, m if rnd.random() < .8 else [], st("{SAIDs}", "{SAIDt}"), [("{%s}" % a, "{%s}" % b) for a, b in want.items()]))
        if not cases[-1][2]:
            cases[-1] = cases[-1][:3] + ((NONE, NONE),) + cases[-1][4:]
    tt = [a for a in F.adts if a.startswith("transformation_file::") and a.split("::")[-1] == "Transformation"]
    if len(tt) != 1:
        raise Missing("type transformation_file::state::Transformation")
    docs = {}
    for k, cmds, meta, (s, t), kv in cases:
        key = "transformation:build:" + k
        for rev in (False, True):
            outs = r.run(f, [Ref(tast(r, cmds, meta), "ast")], hash_rev=rev)
            pn = sorted({f"{x[1]} at {x[0].split('::')[-1]}" for x in r.ip.panics if not version_panic(x)})
            r.ob(key + f":total:{rev}", not pn, w, f"building can panic: {pn}")
            vs = [v for _, v in outs]
            v = only(vs[0], 0) if len(vs) == 1 else None
            if not r.ob(key + f":built:{rev}", v is not None, w, "must be built on every path: " + "; ".join(pv(F, x)[:300] for x in vs)):
                continue
            r.eq(key + f":source:{rev}", field(F, v, "source"), s, w, "source")
            r.eq(key + f":target:{rev}", field(F, v, "target"), t, w, "target")
            r.eq(key + f":attributes:{rev}", field(F, v, "attributes"), mp(*[(T(a), T(b)) for a, b in kv]), w, "attributes")
            said, doc = sl.sealed(r, key + f":said:{rev}", v, w, "the transformation", version=True)
            if doc:
                sl.covers(r, key + f":said:{rev}", v, doc, w, "the transformation")
            docs.setdefault(k, []).append(said)
    for k, ss in docs.items():
        r.ob(f"transformation:build:{k}:order", len(ss) == 2 and ss[0] is not None and ss[0] == ss[1], w, "the identifier of the transformation depends on the iteration order of a hash table")
    c = [cmd(r, "Rename", ("{a}", "{b}"))]
    for k, cmds, meta in [("no-source", c, [("target", "refs:{SAIDt}")]), ("no-target", c, [("source", "refs:{SAIDs}")]), ("only-name", c, [("name", "{n}")]), ("nothing", [], [])]:
        outs = r.run(f, [Ref(tast(r, cmds, meta), "ast")])
        pn = sorted({f"{x[1]} at {x[0].split('::')[-1]}" for x in r.ip.panics if not version_panic(x)})
        r.ob(f"transformation:build:{k}:total", not pn, w, f"building can panic: {pn}")
        r.ob(f"transformation:build:{k}:error", outs and all(only(v, 1) is not None for _, v in outs), w, "must be an error: " + "; ".join(pv(F, x)[:300] for _, x in outs))
