"""Building a bundle from a list of commands: the chain of steps, and what is reported when commands are wrong."""
import random
from base import *
import apply as ap
import bundle as bd
import codec
import facade as fc

OAA = OA + "OCAAst"
META = OA + "CommandMeta"
ERR = OB + "build::Error"


def from_ast(r):
    return r.fn("build::from_ast", crate="oca_bundle_semantics")


def ast(r, cmds, metas=None):
    """an AST of these commands; metas: index -> (line, raw text)"""
    F = r.F
    d = {}
    for f in F.adts[OAA]["v"][0]["f"]:
        d[f["n"]] = mp()
    d["version"] = K("1.0.0")
    d["commands"] = vec(*cmds)
    d["commands_meta"] = mp(*[(K(i), struct(F, META, "", line_number=l, raw_line=t)) for i, (l, t) in (metas or {}).items()])
    return struct(F, OAA, "", **d)


def good(r):
    """commands that build on one another"""
    V = lambda n: ap.val(r, S("!*" + n))
    T = codec.types(r)
    at = lambda *ns: some(mp(*[(sym(n), T[t]) for n, t in ns]))
    lang = lambda l: some(mp((K("lang"), ap.val(r, K(l)))))
    at2 = lambda *ns: some(mp(*[(sym(n), V(t)) for n, t in ns]))
    return [
        ("add", ap.command(r, "Add", ap.capture(r, attributes=at(("a", "text"), ("b", "numbers")), properties=NONE))),
        ("label", ap.command(r, "Add", ap.overlay(r, "Label", ap.content(r, at2(("a", "l1"), ("b", "l2")), lang("en"))))),
        ("more", ap.command(r, "Add", ap.capture(r, attributes=at(("c", "text"))))),
        ("relabel", ap.command(r, "Add", ap.overlay(r, "Label", ap.content(r, at2(("a", "l3"), ("c", "l4")), lang("en"))))),
        ("meta", ap.command(r, "Add", ap.overlay(r, "Meta", ap.content(r, NONE, some(mp((K("lang"), ap.val(r, K("fr"))), (sym("k"), V("m")))))))),
        ("unit", ap.command(r, "Add", ap.overlay(r, "Unit", ap.content(r, at2(("b", "u")))))),
        ("again", ap.command(r, "Add", ap.overlay(r, "Unit", ap.content(r, at2(("b", "u")))))),
        ("remove", ap.command(r, "Remove", ap.capture(r, attributes=at(("a", "text"))))),
    ]


def bad(r):
    """commands that are errors, with the number of messages of each"""
    at2 = lambda *ns: some(mp(*[(sym(n), ap.val(r, S("!*" + n + "v"))) for n in ns]))
    return [("undefined", ap.command(r, "Add", ap.overlay(r, "Unit", ap.content(r, at2("zz"))))),
            ("undefined-too", ap.command(r, "Add", ap.overlay(r, "Format", ap.content(r, at2("a", "yy", "xx"))))),
            ("modify", ap.command(r, "Modify", ap.capture(r, attributes=NONE)))]


def apply_one(r, b, c):
    """-> (box, None) or (None, [messages])"""
    vs = [v for _, v in r.run(ap.apply_fn(r), [some(b) if b is not None else NONE, c])]
    v = vs[0] if len(vs) == 1 else None
    if v is None:
        return None, None
    g, e = only(v, 0), only(v, 1)
    if g is not None:
        return g, None
    return None, list(e[1]) if e is not None and e[0] == "t" else None


def expect(r, base, cmds):
    """what building must give: (steps [(parent, command, bundle)], errors [(index, message)])"""
    bx, parent = None, None
    if base is not None:
        frm = [f for t, f in r.F.impls.get(("core::convert::From", "from"), []) if t["k"] == "adt" and t["p"] == OB + "state::oca::OCABox"]
        if len(frm) != 1:
            raise Missing("From<OCABundle> for OCABox")
        vs = r.run(frm[0], [base])
        bx, parent = vs[0][1] if len(vs) == 1 else None, fc.said(r, base)
    steps, errs = [], []
    for i, c in enumerate(cmds):
        g, e = apply_one(r, bx, c)
        if g is None:
            if e is None:
                return None
            errs += [(i, m) for m in e]
            continue
        b, _ = bd.gen(r, g)
        if b is None:
            return None
        steps.append((parent, c, b))
        bx, parent = g, fc.said(r, b)
    return steps, errs


def drawn(r, gs, bs, base):
    """lists from a fixed sequence: good and wrong commands in any order, repeated, on a bare base, one with overlays or none"""
    rnd = random.Random("chain")
    e = expect(r, None, gs[:1])
    bare = e[0][-1][2] if e and e[0] else base
    e = expect(r, None, gs[4:5])       # no attributes
    empty = e[0][-1][2] if e and e[0] else base
    wrong = bs + [ap.command(r, "Add", ap.overlay(r, "Unit", ap.content(r, some(mp(*[(sym(f"y{i}"), ap.val(r, S(f"!*y{i}v"))) for i in range(n)]))))) for n in (1, 10)]
    out = []
    for i in range(14 if r.tier == "quick" else 120):
        bb = (None, bare, base, empty)[i % 4]
        p = (0, .4, .8)[i // 4 % 3]
        cmds = [] if bb is not None else gs[:1]
        cmds = cmds + [rnd.choice(wrong) if rnd.random() < p else rnd.choice(gs[1:]) for _ in range(rnd.randint(2, 6 if r.tier == "quick" else 9))]
        if rnd.random() < .3:
            rnd.shuffle(cmds)
        out.append((f"drawn:{i}", bb, cmds))
    return out


def chain(r):
    F = r.F
    for x in (OAA, META, ERR, fc.STEP, fc.BUILD):
        if x not in F.adts:
            raise Missing(f"type {x}")
    f = from_ast(r)
    w = r.where(f)
    gs, bs = [c for _, c in good(r)], [c for _, c in bad(r)]
    e0 = expect(r, None, gs[:2])
    base = e0[0][-1][2] if e0 and e0[0] else None
    if not r.ob("chain:base", base is not None, w, "no base bundle can be built"):
        return
    cases = [("one", None, gs[:1]), ("all", None, gs), ("twice", None, gs[:2] + gs[1:2]), ("undo", None, [gs[0], gs[2], ap.command(r, "Remove", field(F, gs[2], "object_kind"))]),
             ("base", base, gs[2:6]), ("base-one", base, gs[5:6]), ("base-again", base, gs[1:2]), ("base-only", base, []), ("nothing", None, []),
             ("error-first", None, [bs[0]] + gs[:2]), ("error-last", None, gs[:2] + [bs[0]]), ("errors", None, [gs[0], bs[1], gs[1], bs[0], bs[2]]), ("only-errors", None, [bs[2], bs[0]]),
             ("base-error", base, [gs[2], bs[1], bs[0]]), ("base-only-errors", base, bs[:1])] + drawn(r, gs, bs, base)
    many = [ap.command(r, "Add", ap.capture(r, flagged=some(vec(*[sym(f"z{i}") for i in range(n)])))) for n in (12, 20)]
    cases += [("many-errors", None, [gs[0], many[0]]), ("more-errors", base, [many[1], gs[2], many[0]]), ("many-wrong", base, [bs[1]] * 14)]
    for name, bb, cmds in cases:
        key = "chain:" + name
        n = len(cmds) + (1 if bb is not None else 0)
        # the text and line of every command; the FROM line, when there is one, is the first
        metas = {i: (S(f"!line{i}"), S(f"!*text{i}")) for i in range(n)}
        for mk, ms in (("", metas), (":unknown-lines", {})):
            outs = r.run(f, [some(bb) if bb is not None else NONE, Ref(ast(r, cmds, ms), "ast")])
            pn = sorted({f"{k[1]} at {k[0].split("::")[-1]}" for k in r.ip.panics if not fc.quiet(k)})
            r.ob(key + mk + ":total", not pn, w, f"building can panic: {pn}")
            vs = [v for _, v in outs]
            ex = expect(r, bb, cmds)
            if not r.ob(key + mk + ":expectation", ex is not None, w, "applying the commands one by one is not determined"):
                continue
            steps, errs = ex
            if not steps and not errs and bb is None:
                r.ob(key + mk + ":error", len(vs) == 1 and only(vs[0], 1) is not None, w, f"nothing to build must be an error: {[pv(F, v)[:200] for v in vs]}")
                continue
            if errs:
                e = only(vs[0], 1) if len(vs) == 1 else None
                if not r.ob(key + mk + ":rejected", e is not None and e[0] == "t", w, f"a list with a wrong command must be an error: {[pv(F, v)[:200] for v in vs]}"):
                    continue
                want = []
                for i, m in errs:
                    l, t = ms.get(i + (1 if bb is not None else 0), (K(0), K("unknown")))
                    want.append(struct(F, ERR, "FromASTError", line_number=l, raw_line=t, message=m) if "FromASTError" in [v["n"] for v in F.adts[ERR]["v"]] else None)
                r.eq(key + mk + ":errors", e, vec(*want), w, "the errors reported, each with the line of its command")
                continue
            v = only(vs[0], 0) if len(vs) == 1 else None
            if not r.ob(key + mk + ":builds", v is not None, w, f"building must succeed on every path: {[pv(F, x)[:300] for x in vs]}"):
                continue
            final = steps[-1][2] if steps else bb
            fc.same_bundle(r, key + mk + ":bundle", field(F, v, "oca_bundle"), final, w, "the bundle built") if steps else \
                r.eq(key + mk + ":bundle", fc.said(r, field(F, v, "oca_bundle")), fc.said(r, bb), w, "identifier of the base")
            ss = field(F, v, "steps")
            if not r.ob(key + mk + ":steps", ss is not None and ss[0] == "t" and len(ss[1]) == len(steps), w, f"{len(steps)} commands, steps: {pv(F, ss)[:200]}"):
                continue
            for i, (x, (p, c, b)) in enumerate(zip(ss[1], steps)):
                r.eq(f"{key}{mk}:steps:{i}:parent", field(F, x, "parent_said"), some(p) if p is not None else NONE, w, f"parent of step {i}")
                r.eq(f"{key}{mk}:steps:{i}:command", field(F, x, "command"), c, w, f"command of step {i}")
                fc.same_bundle(r, f"{key}{mk}:steps:{i}:result", field(F, x, "result"), b, w, f"result of step {i}")
