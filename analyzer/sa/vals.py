"""Helpers to build abstract entry values and to read results."""
from interp import *


def sym(n):
    """a value with its own identity: equal only to itself"""
    return S("!" + n)


def text(*parts):
    """a string made of constants and symbols"""
    out = []
    for p in parts:
        p = K(p) if isinstance(p, str) else p
        for x in (p[1] if p[0] == "cat" else (p,)):
            if x == K(""):
                continue
            if out and out[-1][0] == "k" and x[0] == "k":
                out[-1] = K(out[-1][1] + x[1])
            else:
                out.append(x)
    return K("") if not out else out[0] if len(out) == 1 else ("cat", tuple(out))


def struct(F, adt, base="", **kw):
    """struct value; unnamed fields are unknown values labelled base.field"""
    a = F.adt(adt) if isinstance(adt, str) else adt
    fs = a["v"][0]["f"]
    names = [f["n"] for f in fs]
    for k in kw:
        if k not in names:
            raise KeyError(f"{a['p']} has no field {k}")
    return ("a", a["p"], ((0, tuple(kw[n] if n in kw else S(f"{base}.{n}") for n in names)),))


def variant(F, adt, name, *fields):
    a = F.adt(adt) if isinstance(adt, str) else adt
    for i, v in enumerate(a["v"]):
        if v["n"] == name:
            fl = list(fields)
            while len(fl) < len(v["f"]):
                fl.append(S(f"{name}.{len(fl)}"))
            return ("a", a["p"], ((i, tuple(fl)),))
    raise KeyError(f"{a['p']} has no variant {name}")


def variants_of(F, adt):
    a = F.adt(adt) if isinstance(adt, str) else adt
    return [v["n"] for v in a["v"]]


def vec(*xs):
    return ("t", tuple(xs))


def mp(*kv):
    return ("m", tuple(kv), frozenset())


def field(F, v, name):
    """field of a struct value"""
    if v is None:
        return None
    if v[0] == "s":
        return s_ext(v, "." + name)
    if v[0] != "a" or v[1] not in F.adts:
        return None
    a = F.adts[v[1]]
    r = None
    for i, fs in v[2]:
        for j, f in enumerate(a["v"][i]["f"]):
            if f["n"] == name:
                return fs[j]
    return None


def vname(F, v):
    """names of the possible variants"""
    if v is None or v[0] != "a":
        return None
    if v[1] == OPTION:
        return {["None", "Some"][i] for i, _ in v[2]}
    if v[1] == RESULT:
        return {["Ok", "Err"][i] for i, _ in v[2]}
    return {F.adts[v[1]]["v"][i]["n"] for i, _ in v[2]}


def payload(v, var, j=0):
    if v is None or v[0] != "a":
        return None
    m = dict(v[2])
    if var not in m or j >= len(m[var]):
        return None
    return m[var][j]


def okv(v):
    return payload(v, 0) if v is not None and v[0] == "a" and v[1] == RESULT else None


def errv(v):
    return payload(v, 1) if v is not None and v[0] == "a" and v[1] == RESULT else None


def only(v, var):
    """payload of an Option/Result that has only this variant, else None"""
    if v is None or v[0] != "a" or len(v[2]) != 1 or v[2][0][0] != var:
        return None
    return v[2][0][1][0] if v[2][0][1] else UNIT


def mget(v, key):
    """value of an exact map under an abstract key, None when absent"""
    if v is None or v[0] != "m":
        return None
    for k, x in v[1]:
        if k == key:
            return x
    return None


def pv(F, v, d=0):
    """readable form"""
    if v is None:
        return "⊥"
    if d > 12:
        return "…"
    t = v[0]
    P = lambda x: pv(F, x, d + 1)
    if t == "k":
        return repr(v[1])
    if t == "s":
        return "{" + ",".join(sorted(v[1])) + "}"
    if t == "a":
        out = []
        for i, fs in v[2]:
            a = F.adts.get(v[1])
            n = a["v"][i]["n"] if a and i < len(a["v"]) else str(i)
            if v[1] == OPTION:
                n = ["None", "Some"][i]
            if v[1] == RESULT:
                n = ["Ok", "Err"][i]
            fn = [f["n"] for f in a["v"][i]["f"]] if a and i < len(a["v"]) else []
            out.append(n + ("(" + ", ".join((fn[j] + "=" if j < len(fn) and not fn[j].isdigit() else "") + P(x) for j, x in enumerate(fs)) + ")" if fs else ""))
        return "|".join(out)
    if t == "t":
        return "[" + ", ".join(map(P, v[1])) + "]"
    if t == "m":
        return "{" + ", ".join(P(k) + ": " + P(x) for k, x in v[1]) + "}"
    if t == "c":
        return "C[" + P(v[1]) + (" key " + P(v[2]) if v[2] else "") + "]"
    if t == "cat":
        return "+".join(map(P, v[1]))
    if t == "r":
        return "&" + str(sorted(map(str, v[1])))
    if t == "or":
        return "(" + " ; ".join(map(P, v[1])) + ")"
    return str(v)
