"""Conditions: what is evaluated for an attribute is its condition with the values given in the places of its dependencies."""
from base import *
import apply as ap
import sermodels as sm
import storage as sg
import luamodels as lua

CND = "oca_bundle_semantics::state::oca::overlay::conditional::Conditionals"


def fns(r):
    out = []
    for n in ("set_condition", "check_condition"):
        fs = [f for t, f in r.F.impls.get((CND, n), []) if t.get("k") == "adt" and t["p"] == ap.ATTR]
        if len(fs) != 1:
            raise Missing(f"{n} of an attribute")
        out.append(fs[0])
    return out


def evaluated(r, key, check, a, vals, want, errs, what):
    """want: the text evaluated, or None where it must be an error naming each of errs before anything is evaluated"""
    F = r.F
    w = r.where(check)
    for end in (True,) if want is None else (True, False, "failed", "uncompiled"):
        lua.ENDS = end
        try:
            outs = r.run(check, [Ref(a, "self"), mp(*vals)])
        finally:
            lua.ENDS = None
        pn = sorted({f"{k[1]} at {k[0].split('::')[-1]}" for k in r.ip.panics})
        k = f"{key}:{end}"
        r.ob(k + ":total", not pn, w, f"checking {what} can panic: {pn}")
        r.ob(k + ":paths", bool(outs), w, f"checking {what} gives nothing")
        for s, v in outs:
            ran, loaded, es = s.fr.get("LUARUN", {}).get(0), s.fr.get("LUA", {}).get(0), only(v, 1)
            if want is None:
                r.ob(k + ":error", es is not None and ran is None and loaded is None, w, f"{what} must be an error, and nothing evaluated: {pv(F, v)[:300]}")
                if es is not None:
                    r.ob(k + ":errors", es[0] == "t" and len(es[1]) == len(errs), w, f"{what}: one error for each of {[pv(F, e) for e in errs]}: {pv(F, es)[:300]}")
                    for i, e in enumerate(errs):
                        ls = r.ip.labels(es, s)
                        named = e[0] == "s" and set(e[1]) <= set(ls) or e[0] == "k" and str(e[1]) in pv(F, es)
                        r.ob(f"{k}:errors:{i}", named, w, f"{what}: an error must name {pv(F, e)}: {pv(F, es)[:300]}")
                continue
            if end != "uncompiled":
                d = sm.doc_of(ran)
                r.ob(k + ":script", d is not None and d[0] == "lua" and d[1] == want, w, f"{what}: evaluated is {pv(F, d[1]) if d else pv(F, ran)}, must be {pv(F, want)}"[:900])
            if end in ("failed", "uncompiled"):
                r.ob(k + ":error", es is not None and es[0] == "t" and len(es[1]) == 1, w, f"{what}: a script that is not one, or fails, is an error: {pv(F, v)[:300]}")
            else:
                r.ob(k + ":result", only(v, 0) == K(int(end)), w, f"{what}: the answer must be the value of the script, {end}: {pv(F, v)[:300]}")


@sg.exact_mode
def conditions(r):
    F = r.F
    set_, check = fns(r)
    T = text
    n = [sym(f"d{i}") for i in range(14)]
    ref = lambda x: ("${", x, "}")
    v = lambda i: S(f"!*v{i}")
    cases = [("plain", T("1 > 2"), [], lambda v: ("1 > 2",)), ("text", S("!script"), [], lambda v: (S("!script"),)),
             ("one", T(*ref(n[0]), " > 5"), n[:1], lambda v: (v[0], " > 5")),
             ("only", T(*ref(n[0])), n[:1], lambda v: (v[0],)),
             ("twice", T(*ref(n[0]), " > ", *ref(n[1]), " or ", *ref(n[0]), " == ", S("!rest")), n[:2], lambda v: (v[0], " > ", v[1], " or ", v[0], " == ", S("!rest"))),
             ("joined", T(*ref(n[0]), *ref(n[1]), *ref(n[1]), *ref(n[2])), n[:3], lambda v: (v[0], v[1], v[1], v[2])),
             ("numbered", T("${1} > ${0} and ${1} > 10"), [K("1"), K("0")], lambda v: (v[0], " > ", v[1], " and ", v[0], " > 10")),
             ("many", T(*[y for x in n for y in ref(x) + (" ",)]), n, lambda v: tuple(y for x in v for y in (x, " "))),
             ("many-back", T(*[y for x in n + n[::-1] for y in ref(x) + (",",)]), n, lambda v: tuple(y for x in v + v[::-1] for y in (x, ","))),
             ("words", T("${a b} < ${c.d} $x ${"), [K("a b"), K("c.d")], lambda v: (v[0], " < ", v[1], " $x ${")),
             ("lines", T("${a}\n> ${b}"), [K("a"), K("b")], lambda v: (v[0], "\n> ", v[1]))]
    extra = (sym("other"), S("!*other"))
    for name, c, deps, want in cases:
        for over in (False, True):
            key = f"condition:{name}" + (":over" if over else "")
            what = f"the condition {pv(F, c)[:200]}"
            a = ap.attr(r, K("me") if deps and deps[0][0] == "k" else sym("self"), **(dict(condition=some(T("${0} == ${1}")), dependencies=some(vec(sym("x"), sym("y")))) if over else {}))
            outs = r.run(set_, [Ref(a, "self"), c])
            if not r.ob(key + ":set", len(outs) == 1 and not r.ip.panics, r.where(set_), "setting a condition must succeed"):
                continue
            a1 = E(outs[0][0], "self")
            for kind, vs in (("values", [v(i) for i in range(len(deps))]), ("marks", [K("${%d}" % (len(deps) - 1 - i)) for i in range(len(deps))]), ("empty", [K("")] * len(deps))):
                if over and kind != "values":
                    continue
                extra = (K("another") if deps and deps[0][0] == "k" else sym("other"), S("!*other"))
                given = list(zip(deps, vs))
                evaluated(r, f"{key}:{kind}", check, a1, given + [extra], T("return ", *want(vs)), None, what)
            extra = (K("another") if deps and deps[0][0] == "k" else sym("other"), S("!*other"))
            given = list(zip(deps, [v(i) for i in range(len(deps))]))
            for i in range(min(3, len(deps))):
                evaluated(r, f"{key}:missing:{i}", check, a1, given[:i] + given[i + 1:] + [extra], None, [deps[i]], what + " without a value for one dependency")
            if len(deps) > 1:
                evaluated(r, f"{key}:missing:all", check, a1, [extra], None, deps, what + " without values")
    a = ap.attr(r, sym("self"))
    evaluated(r, "condition:none", check, a, [extra], None, [K("")], "an attribute without a condition")
    for name, c, deps in (("self", T(*ref(sym("self")), " > 5"), [sym("self")]), ("self-too", T(*ref(n[0]), " > ", *ref(sym("self"))), [n[0], sym("self")])):
        outs = r.run(set_, [Ref(a, "self"), c])
        a1 = E(outs[0][0], "self")
        evaluated(r, "condition:" + name, check, a1, [(d, v(i)) for i, d in enumerate(deps)], None, [sym("self")], "a condition on the attribute itself")
    # conditions that were read, not set: their places may name no dependency
    for name, c, d in (("no-list", K("${0} > 1"), NONE), ("empty-list", K("${0} > 1"), some(vec())), ("beyond", K("${0} > ${1}"), some(vec(n[0]))), ("huge", K("${99999999999999999999999} > 1"), some(vec(n[0])))):
        a = ap.attr(r, sym("self"), condition=some(c), dependencies=d)
        evaluated(r, "condition:read:" + name, check, a, [(n[0], v(0))], None, [K("")], f"the condition {pv(F, c)} with the dependencies {pv(F, d)}")
    a = ap.attr(r, sym("self"), condition=some(K("1 > 0")), dependencies=NONE)
    evaluated(r, "condition:read:plain", check, a, [extra], K("return 1 > 0"), None, "a condition without dependencies")
