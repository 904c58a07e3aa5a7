"""Library models for the abstract interpreter (std, indexmap, serde-free parts of the dependencies)."""
import math
import re
from facts import norm
from interp import (A, K, S, SL, TOP, UNIT, EMPTY, some, NONE, opt, ok, err, res, TRUE, FALSE, OPTION, RESULT, CF, BOX,
                    s_ext, MAXCAT)

M = {}          # normalized path -> model
MAPS = ("HashMap", "IndexMap", "BTreeMap", "serde_json::map::Map")
E = ("e",)
KEY = ("K",)


def m(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def tyname(t):
    while t["k"] in ("ref", "ptr"):
        t = t["t"]
    if t["k"] == "adt":
        return t["p"]
    return t["s"]


def is_map(t):
    n = tyname(t)
    return n.split("::")[-1] in ("HashMap", "IndexMap", "BTreeMap", "Map") or n == "serde_json::map::Map"


def unordered(t):
    return tyname(t).split("::")[-1] in ("HashMap", "HashSet")


def dv(cx, i):
    return cx.ip.deref(cx.st, cx.args[i])


def ptr(cx, i, *steps):
    """pointer to a component of what argument i points to"""
    v = cx.args[i]
    n = 8
    # && -> &
    while v is not None and v[0] == "r" and n:
        inner = cx.ip.loadall(cx.st, v[1])
        if inner is not None and inner[0] == "r":
            v = inner
            n -= 1
            continue
        break
    if v is None:
        return None
    if v[0] == "r":
        ts = set()
        for t in v[1]:
            if t[0] == "S":
                x = ("s", t[1])
                for s in t[2] + tuple(steps):
                    x = cx.ip.rstep(x, s)
                ts.add(("S", cx.ip.labels(x), ()))
            else:
                ts.add((t[0], t[1], t[2] + tuple(steps)))
        return ("r", frozenset(ts))
    for s in steps:
        v = cx.ip.rstep(v, s)
    return v


def tmp(cx, name, v):
    """put v into a fresh cell, return a pointer"""
    f = cx.ip.newfid("tmp", cx.fid, cx.site[0], name)
    cx.st.fr[f] = {0: v}
    return ("r", frozenset([(f, 0, ())]))


def store(cx, i, v):
    a = cx.args[i]
    n = 8
    while a is not None and a[0] == "r" and n:
        inner = cx.ip.loadall(cx.st, a[1])
        if inner is not None and inner[0] == "r":
            a = inner
            n -= 1
            continue
        break
    if a is not None and a[0] == "r":
        cx.ip.store(cx.st, list(a[1]), v)


def variants(cx, v, adt):
    if v is None:
        return {}
    if v[0] == "s":
        v = cx.ip.expand(v, adt)
    if v[0] == "a" and v[1] == adt:
        return dict(v[2])
    l = SL(cx.ip.labels(v, cx.st))
    return dict(cx.ip.expand(l, adt)[2])


NATIVE = {}     # closures the models themselves hand to interpreted code


def panic(cx, what):
    cx.ip.panics[(cx.body.fn.p if cx.body else "?", what, cx.site[1])] = what


def asc(cx, v):
    """view a value as a collection"""
    if v is None:
        return None
    if v[0] == "c":
        return v
    if v[0] in ("t", "m"):
        return cx.ip.tocol(v)
    if v[0] == "s":
        return ("c", s_ext(v, "[]"), s_ext(v, "[k]"), frozenset())
    if v[0] == "k" and isinstance(v[1], bytes):
        return ("c", TOP, None, frozenset())
    return ("c", SL(cx.ip.labels(v, cx.st)), None, frozenset())


def join_all(ip, vs):
    r = None
    for v in vs:
        r = ip.join(r, v)
    return r


def many(cx, st, f, args, atleast=0, feed=None):
    """run closure f zero or more times on args; -> ({tok: state}, joined value)
    feed: function(value) -> args, for folds"""
    ip = cx.ip
    states = {st.tok: st}
    val = None
    work = [st]
    rounds = 0
    while work:
        rounds += 1
        if rounds > 60:
            from interp import Budget
            raise Budget(f"no fixpoint over repeated calls of a closure in {cx.body.fn.p if cx.body else '?'}")
        nxt = []
        for s in work:
            a = feed(val) if feed else args
            if any(x is None for x in a):
                continue
            for s2, v in ip.invoke(s.copy(), f, a, (cx.site[0], "many"), cx.fid, cx.chain):
                nv = ip.join(val, v)
                vch = nv != val
                val = nv
                cur = states.get(s2.tok)
                if cur is None:
                    states[s2.tok] = s2
                    nxt.append(s2)
                else:
                    j, ch = ip.joinst(cur, s2)
                    if ch:
                        states[s2.tok] = j
                        nxt.append(j)
                    elif vch and feed:
                        nxt.append(j)
        work = nxt
    return states, val


def back(states, v):
    return [(s, v) for s in states.values()]


def one(cx, f, args, st=None):
    return cx.ip.invoke((st or cx.st).copy(), f, args, (cx.site[0], "one"), cx.fid, cx.chain)


def mark(labels, f):
    """result of a function we know nothing about: depends on the arguments, and is not any of them"""
    return ("s", frozenset(labels) | {"~" + f})


def ret(cx, v):
    return [(cx.st, v)]


def bool_of(cx, v):
    return v


def strval(cx, v):
    """value as a string value (k / cat / s)"""
    v = cx.ip.deref(cx.st, v)
    if v is None:
        return None
    if v[0] in ("k", "s", "cat"):
        return v
    return SL(cx.ip.labels(v, cx.st))


def concat(ip, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == K(""):
        return b
    if b == K(""):
        return a
    if a[0] == "k" and b[0] == "k" and isinstance(a[1], str) and isinstance(b[1], str):
        return K(a[1] + b[1])
    pa = a[1] if a[0] == "cat" else (a,)
    pb = b[1] if b[0] == "cat" else (b,)
    out = list(pa)
    for x in pb:
        if out and out[-1][0] == "k" and x[0] == "k" and isinstance(out[-1][1], str) and isinstance(x[1], str):
            out[-1] = K(out[-1][1] + x[1])
        elif out and out[-1] == x and x[0] == "s" and not sym(x):
            pass
        else:
            out.append(x)
    if len(out) > MAXCAT:
        return SL(ip.labels(("cat", tuple(out))))
    return ("cat", tuple(out))


# ------------------------------------------------------------------ local conversions
def unify(pt, at, env=None):
    """does an impl type pattern match a concrete type (env: what its parameters stand for)"""
    env = {} if env is None else env
    if pt["k"] == "param":
        if pt["s"] in env and env[pt["s"]]["s"] != at["s"] and env[pt["s"]]["k"] != "param" and at["k"] != "param":
            return False
        env.setdefault(pt["s"], at)
        return True
    if pt is at or pt["s"] == at["s"]:
        return True
    if pt["k"] != at["k"]:
        return False
    if pt["k"] == "adt":
        return pt["p"] == at["p"] and len(pt.get("a", [])) == len(at.get("a", [])) and \
            all(unify(x, y, env) if isinstance(x, dict) and isinstance(y, dict) else True for x, y in zip(pt["a"], at["a"]))
    if pt["k"] == "ref":
        return unify(pt["t"], at["t"], env)
    return pt["s"].startswith(("dyn ", "(dyn ")) and dynname(pt["s"]) == dynname(at["s"])


def dynname(s):
    """trait object type without its lifetime bound"""
    return re.sub(r" \+ '\w+", "", s).strip("()")


def local_conv(ip, trait, meth, self_t, src_t):
    for st, fn in ip.F.impls.get((trait, meth), []):
        env = {}
        if unify(st, self_t, env) and (not fn.targs or src_t is None or unify(fn.targs[-1], src_t, env)):
            return fn
    return None


def convert(cx, v, src, dst, st=None):
    """From/Into conversion; -> [(state, value)]"""
    ip = cx.ip
    st = st or cx.st
    if src["s"] == dst["s"]:
        return [(st, v)]
    fn = local_conv(ip, "core::convert::From", "from", dst, src)
    if fn is not None:
        return ip.call_fn(fn, [v], st, (cx.site[0], "conv", fn.h), cx.chain, cx.fid)
    fn = local_conv(ip, "core::convert::Into", "into", src, dst)
    if fn is not None:
        return ip.call_fn(fn, [v], st, (cx.site[0], "conv", fn.h), cx.chain, cx.fid)
    return [(st, lib_conv(cx, v, src, dst))]


def lib_conv(cx, v, src, dst):
    n = tyname(dst)
    if dst["k"] in ("prim", "str", "bool") or n in ("alloc::string::String", BOX, "alloc::vec::Vec", "std::path::PathBuf"):
        x = v
        if n in ("alloc::string::String", "std::path::PathBuf", "alloc::vec::Vec"):
            x = cx.ip.deref(cx.st, v)
        return x
    if dst["k"] == "dyn" or "dyn " in dst["s"]:
        return v
    if n == OPTION:
        return some(v)
    if n in ("std::collections::hash::map::HashMap", "indexmap::map::IndexMap", "alloc::collections::btree::map::BTreeMap"):
        w = cx.ip.deref(cx.st, v)
        if w is not None and w[0] == "t":
            return collect_val(cx, w, dst)
        c = asc(cx, w)
        e = c[1]
        if e is not None and e[0] == "t" and len(e[1]) == 2:
            return ("c", e[1][1], e[1][0], c[3])
        return ("c", e, e, c[3])
    if src["k"] == "adt" and dst["k"] == "adt" and src["p"] == dst["p"]:
        return v
    return SL(cx.ip.labels(v, cx.st))


@m("core::convert::Into::into")
def into(ip, cx):
    a = cx.c["a"]
    return convert(cx, cx.args[0], a[0], a[1])


@m("core::convert::From::from")
def from_(ip, cx):
    a = cx.c["a"]
    return convert(cx, cx.args[0], a[1], a[0])


@m("core::convert::TryInto::try_into")
def try_into(ip, cx):
    a = cx.c["a"]
    fn = local_conv(ip, "core::convert::TryFrom", "try_from", a[1], a[0])
    if fn is not None:
        return ip.call_fn(fn, [cx.args[0]], cx.st, (cx.site[0], "conv", fn.h), cx.chain, cx.fid)
    fn = local_conv(ip, "core::convert::TryInto", "try_into", a[0], a[1])
    if fn is not None:
        return ip.call_fn(fn, [cx.args[0]], cx.st, (cx.site[0], "conv", fn.h), cx.chain, cx.fid)
    v = cx.args[0]
    if v[0] == "r":
        v = ip.deref(cx.st, v)
    return [(cx.st, ok(v)), (cx.st.copy(), err(SL(ip.labels(v, cx.st))))]


@m("core::convert::TryFrom::try_from")
def try_from(ip, cx):
    v = cx.args[0]
    return [(cx.st, ok(v)), (cx.st.copy(), err(SL(ip.labels(v, cx.st))))]


@m("core::str::parse", "core::str::traits::FromStr::from_str")
def parse(ip, cx):
    t = cx.c["a"][0]
    fn = local_conv(ip, "core::str::traits::FromStr", "from_str", t, None)
    if fn is not None:
        return ip.call_fn(fn, [cx.args[0]], cx.st, (cx.site[0], "parse", fn.h), cx.chain, cx.fid)
    l = SL(ip.labels(cx.args[0], cx.st))
    return [(cx.st, ok(l)), (cx.st.copy(), err(l))]


@m("core::ops::try_trait::Try::branch")
def branch(ip, cx):
    t = cx.c["a"][0]
    v = cx.args[0]
    if tyname(t) == OPTION:
        vs = variants(cx, v, OPTION)
        out = []
        if 1 in vs:
            out.append((cx.st.copy(), ("a", CF, ((0, vs[1]),))))
        if 0 in vs:
            out.append((cx.st.copy(), ("a", CF, ((1, (NONE,)),))))
        return out
    if tyname(t) == CF:
        return ret(cx, v)
    vs = variants(cx, v, RESULT)
    out = []
    if 0 in vs:
        out.append((cx.st.copy(), ("a", CF, ((0, vs[0]),))))
    if 1 in vs:
        out.append((cx.st.copy(), ("a", CF, ((1, (("a", RESULT, ((1, vs[1]),)),)),))))
    return out


@m("core::ops::try_trait::FromResidual::from_residual")
def from_residual(ip, cx):
    a = cx.c["a"]
    v = cx.args[0]
    if tyname(a[0]) == OPTION:
        return ret(cx, NONE)
    vs = variants(cx, v, RESULT)
    if 1 not in vs:
        return []
    src = a[1]["a"][1] if len(a) > 1 and a[1]["k"] == "adt" and len(a[1].get("a", [])) > 1 else a[0]["a"][1]
    dst = a[0]["a"][1]
    return [(s, err(x)) for s, x in convert(cx, vs[1][0], src, dst)]


@m("core::ops::try_trait::Try::from_output")
def from_output(ip, cx):
    t = cx.c["a"][0]
    return ret(cx, some(cx.args[0]) if tyname(t) == OPTION else ok(cx.args[0]))


# ------------------------------------------------------------------ identity-like
def ident(ip, cx):
    return ret(cx, cx.args[0])


for n in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
          "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
          "alloc::string::String::as_str", "alloc::string::String::as_mut_str", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
          "core::hint::must_use", "alloc::boxed::Box::new", "alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rcs::rc::Rc::new",
          "std::sync::poison::mutex::Mutex::new", "core::cell::RefCell::new", 
          
          
          "core::pin::Pin::new", "core::future::into_future::IntoFuture::into_future", "alloc::boxed::Box::pin",
          "alloc::string::String::into_boxed_str", "alloc::vec::Vec::into_boxed_slice", "alloc::slice::into_vec", "std::path::PathBuf::as_path", "std::path::Path::new",
          "core::convert::identity", "core::mem::ManuallyDrop::new", "lazy_static::lazy::Lazy::get", "alloc::string::String::into_string",
          "erased_serde::__private::require_erased_serialize_impl", "core::any::Any::type_id", "core::str::as_str",
          "alloc::boxed::Box::leak", "core::option::Option::as_slice", "core::cell::Cell::new"):
    M[n] = ident


@m("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::to_vec", "core::option::Option::cloned", "core::option::Option::copied",
   "dyn_clone::clone_box", "alloc::string::String::from", "alloc::str::into_string", "alloc::slice::ToOwned::to_owned", "alloc::borrow::Cow::into_owned",
   "alloc::string::String::into_bytes", "alloc::string::String::as_bytes", "core::str::as_bytes", "core::str::to_owned", "core::mem::copy", "core::result::Result::cloned", "core::result::Result::copied",
   "alloc::string::String::clone", "alloc::string::String::from_utf8_unchecked", "std::path::PathBuf::into_os_string", "core::array::as_slice")
def clone(ip, cx):
    return ret(cx, deep(cx, cx.args[0], cx.np))


def deep(cx, v, np=""):
    """a clone: the outer pointer is followed; pointers inside library containers too for cloned()/copied()"""
    ip = cx.ip
    if v is None:
        return None
    name = np.split("::")[-1]
    if name in ("cloned", "copied"):
        if v[0] == "a":
            return ("a", v[1], tuple((i, tuple(ip.deref(cx.st, x) for x in fs)) for i, fs in v[2]))
        if v[0] == "c":
            return ("c", ip.deref(cx.st, v[1]), v[2], v[3])
        return v
    if v[0] == "r":
        # clone of &T where T is a reference: one level
        w = ip.loadall(cx.st, v[1])
        if w is not None and w[0] == "r":
            t = cx.c["a"][0] if cx.c.get("a") else None
            if t is not None and t["k"] == "ref":
                return w
            return ip.deref(cx.st, w)
        return w
    return v


@m("core::clone::Clone::clone_from")
def clone_from(ip, cx):
    store(cx, 0, dv(cx, 1))
    return ret(cx, UNIT)


@m("alloc::string::ToString::to_string")
def to_string(ip, cx):
    t = cx.c["a"][0]
    return display(cx, cx.st, cx.args[0], t)


def display(cx, st, v, t, trait="core::fmt::Display"):
    """Display a value; -> [(st, string)]"""
    ip = cx.ip
    while t["k"] == "ref":
        t = t["t"]
    if tyname(t) == BOX and t.get("a"):
        t = t["a"][0]
    fn = local_conv(ip, trait, "fmt", t, None) if t["k"] not in ("str", "param") else None
    x = ip.deref(st, v)
    if fn is None and t["k"] in ("dyn", "param") and x is not None and x[0] == "a":
        for ty, f in ip.F.impls.get((trait, "fmt"), []):
            if ty["k"] == "adt" and ty["p"] == x[1]:
                fn = f
    if fn is None or fn.derived:
        if x is None:
            return []
        if x[0] == "k" and not isinstance(x[1], str):
            if t["k"] == "prim" and t["s"] != "char" and isinstance(x[1], int):
                return [(st, K(str(x[1])))]
            return [(st, SL(ip.labels(x, st)))]
        if x[0] in ("k", "s", "cat"):
            return [(st, x)]
        return [(st, SL(ip.labels(x, st)))]
    s = st.copy()
    f = ip.newfid("fmt", cx.fid, cx.site[0], fn.h)
    s.fr[f] = {0: K("")}
    p = v if v[0] == "r" else None
    for _ in range(8):
        nx = ip.loadall(st, p[1]) if p is not None else None
        if nx is None or nx[0] != "r":
            break
        p = nx
    if p is None:
        g = ip.newfid("fmtv", cx.fid, cx.site[0], fn.h)
        s.fr[g] = {0: v}
        p = ("r", frozenset([(g, 0, ())]))
    out = []
    for s2, r in ip.call_fn(fn, [p, ("r", frozenset([(f, 0, ())]))], s, (cx.site[0], "fmt", fn.h), cx.chain, cx.fid):
        w = s2.get(f, 0)
        s2.fr.pop(f, None)
        out.append((s2, w))
    # one string per state token
    return ip.compact(out)


# ------------------------------------------------------------------ formatting
@m("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
   "core::fmt::rt::Argument::new_upper_hex")
def new_arg(ip, cx):
    kind = cx.np.split("::")[-1][4:]
    t = cx.c["a"][0] if cx.c.get("a") else None
    k = ip.fnkey_type(t) if t else None
    return ret(cx, ("t", (K("fmtarg:" + kind), cx.args[0], K(k or ""))))


@m("core::fmt::Arguments::new")
def arguments_new(ip, cx):
    return ret(cx, ("t", (K("fmt"), ip.deref(cx.st, cx.args[0]), ip.deref(cx.st, cx.args[1]))))


@m("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def arguments_from(ip, cx):
    return ret(cx, ("t", (K("fmtstr"), ip.deref(cx.st, cx.args[0]), UNIT)))


def template(b):
    """decode a format template; -> list of str | int (argument index)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(b[i:i + ln].decode("utf8", "replace"))
            i += ln
        else:
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                nxt = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(nxt)
            nxt += 1
    return out


def render(cx, st, v):
    """Arguments value -> [(st, string)]"""
    ip = cx.ip
    if v is None:
        return []
    if v[0] != "t" or not v[1] or v[1][0] not in (K("fmt"), K("fmtstr")):
        return [(st, SL(ip.labels(v, st)))]
    if v[1][0] == K("fmtstr"):
        return [(st, v[1][1] if v[1][1] is not None else TOP)]
    tpl, args = v[1][1], v[1][2]
    if tpl is None or tpl[0] != "k" or not isinstance(tpl[1], (bytes, str)):
        return [(st, SL(ip.labels(args, st)))]
    b = tpl[1] if isinstance(tpl[1], bytes) else tpl[1].encode("latin1", "replace")
    cur = [(st, K(""))]
    for p in template(b):
        nx = []
        for s, acc in cur:
            if isinstance(p, str):
                nx.append((s, concat(ip, acc, K(p))))
                continue
            a = ip.rstep(args, ("i", p)) if args is not None else None
            if a is not None and a[0] == "t" and len(a[1]) == 3 and a[1][0][0] == "k" and str(a[1][0][1]).startswith("fmtarg"):
                t = ip.typeof_key(a[1][2][1])
                kind = a[1][0][1].split(":")[1]
                if kind == "display" and t is not None:
                    for s2, x in display(cx, s, a[1][1], t):
                        nx.append((s2, concat(ip, acc, x)))
                else:
                    nx.append((s, concat(ip, acc, SL(ip.labels(a[1][1], s)))))
            else:
                nx.append((s, concat(ip, acc, SL(ip.labels(a, s)) if a is not None else TOP)))
        cur = ip.compact(nx) if len(nx) > 4 else nx
    return cur


@m("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(ip, cx):
    return render(cx, cx.st, cx.args[0])


@m("core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "core::fmt::Formatter::pad", "core::fmt::Formatter::debug_c_like_enum_write_str")
def write_str(ip, cx):
    cur = strval(cx, cx.args[0])
    store(cx, 0, concat(ip, cur, strval(cx, cx.args[1])))
    return ret(cx, ok(UNIT))


@m("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt")
def write_fmt(ip, cx):
    out = []
    for s, x in render(cx, cx.st, cx.args[1]):
        c2 = cx
        old = cx.st
        cx.st = s
        cur = strval(cx, cx.args[0])
        store(cx, 0, concat(ip, cur, x))
        cx.st = old
        out.append((s, ok(UNIT)))
    return out


@m("std::io::stdio::_print", "std::io::stdio::_eprint", "log::__private_api::log")
def unit(ip, cx):
    return ret(cx, UNIT)


@m("alloc::string::String::push_str", "alloc::string::String::push", "std::path::PathBuf::push")
def push_str(ip, cx):
    cur = strval(cx, cx.args[0])
    b = strval(cx, cx.args[1])
    if b is not None and b[0] == "k" and isinstance(b[1], int):
        b = K(chr(b[1]))
    if cx.np.startswith("std::path"):
        b = concat(ip, K("/"), b)
    store(cx, 0, concat(ip, cur, b))
    return ret(cx, UNIT)


@m("alloc::string::String::insert_str")
def insert_str(ip, cx):
    store(cx, 0, concat(ip, strval(cx, cx.args[2]), strval(cx, cx.args[0])))
    return ret(cx, UNIT)


@m("alloc::string::String::truncate", "alloc::string::String::clear")
def s_clear(ip, cx):
    store(cx, 0, K("") if cx.np.endswith("clear") else mark(ip.labels(dv(cx, 0), cx.st), "truncate"))
    return ret(cx, UNIT)


@m("std::path::Path::join")
def p_join(ip, cx):
    return ret(cx, concat(ip, concat(ip, strval(cx, cx.args[0]), K("/")), strval(cx, cx.args[1])))


@m("core::ops::arith::Add::add")
def add(ip, cx):
    a, b = strval(cx, cx.args[0]), strval(cx, cx.args[1])
    if tyname(cx.c["a"][0]) == "alloc::string::String":
        return ret(cx, concat(ip, a, b))
    return ret(cx, SL(ip.labels(a) | ip.labels(b)))


@m("core::ops::arith::AddAssign::add_assign")
def add_assign(ip, cx):
    if tyname(cx.c["a"][0]) == "alloc::string::String":
        return push_str(ip, cx)
    return ret(cx, UNIT)


@m("alloc::str::replace", "alloc::str::replacen")
def s_replace(ip, cx):
    a, b, c = (strval(cx, x) for x in cx.args[:3])
    if a[0] == "k" and b[0] == "k" and c[0] == "k" and all(isinstance(x[1], str) for x in (a, b, c)):
        return ret(cx, K(a[1].replace(b[1], c[1])))
    return ret(cx, mark(ip.labels(a) | {l for l in ip.labels(c)}, "replace"))


@m("alloc::str::repeat")
def s_repeat(ip, cx):
    return ret(cx, mark(ip.labels(strval(cx, cx.args[0])), "repeat"))


@m("alloc::slice::join", "alloc::slice::concat")
def s_join(ip, cx):
    v = dv(cx, 0)
    if v is not None and v[0] == "t" and cx.np.endswith("concat") and v[1]:
        els = [ip.deref(cx.st, x) for x in v[1]]
        if all(x is not None and x[0] == "t" for x in els):
            return ret(cx, ("t", tuple(y for x in els for y in x[1])))
    if v is not None and v[0] == "t":
        sep = strval(cx, cx.args[1]) if len(cx.args) > 1 else K("")
        r = K("")
        for i, x in enumerate(v[1]):
            if i:
                r = concat(ip, r, sep)
            r = concat(ip, r, strval(cx, x))
        return ret(cx, r)
    l = ip.labels(v, cx.st)
    if v is not None and v[0] == "c" and v[1] is not None:
        l = l | ip.labels(v[1], cx.st)
    return ret(cx, ("cat", (SL(l), K("\x00JOIN"))) if False else SL(l))


@m("core::str::trim", "core::str::trim_start", "core::str::trim_end", "alloc::str::to_lowercase", "alloc::str::to_uppercase", "core::str::trim_matches",
   "core::str::trim_start_matches", "core::str::trim_end_matches", "convert_case::Casing::to_case")
def s_lower(ip, cx):
    a = strval(cx, cx.args[0])
    n = cx.np.split("::")[-1]
    if a[0] == "k" and isinstance(a[1], str):
        f = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower, "to_uppercase": str.upper}.get(n)
        if f:
            return ret(cx, K(f(a[1])))
        if n == "to_case":
            return ret(cx, to_case(ip, cx, a[1], dv(cx, 1)))
        return ret(cx, mark(["=" + a[1]], n))
    return ret(cx, mark(ip.labels(a), n))


def to_case(ip, cx, s, case):
    import re
    w = re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|\d+", s)
    cn = None
    if case is not None and case[0] == "a" and len(case[2]) == 1 and case[1] in ip.F.adts:
        cn = ip.F.adts[case[1]]["v"][case[2][0][0]]["n"]
    if cn in ("UpperSnake", "ScreamingSnake"):
        return K("_".join(x.upper() for x in w))
    if cn == "Snake":
        return K("_".join(x.lower() for x in w))
    return mark(["=" + s], "to_case")


ISO = {"en": "eng", "fr": "fra", "pl": "pol", "de": "deu", "es": "spa"}


@m("isolang::from_639_1", "isolang::Language::from_639_1", "isolang::from_639_3", "isolang::Language::from_639_3")
def lang_from(ip, cx):
    a = strval(cx, cx.args[0])
    n = cx.np.split("::")[-1]
    if a[0] == "k" and isinstance(a[1], str):
        for x, y in ISO.items():
            if a[1] == (x if n.endswith("1") else y):
                return ret(cx, some(K("lang:" + y)))
        if len(a[1]) != (2 if n.endswith("1") else 3) or not a[1].islower() or "z" in a[1]:
            return ret(cx, NONE)
    return [(cx.st, some(mark(ip.labels(a), n))), (cx.st.copy(), NONE)]


@m("isolang::to_639_1", "isolang::Language::to_639_1", "isolang::to_639_3", "isolang::Language::to_639_3")
def lang_to(ip, cx):
    a = dv(cx, 0)
    n = cx.np.split("::")[-1]
    if a is not None and a[0] == "k" and str(a[1]).startswith("lang:"):
        r = a[1][5:]
        if n.endswith("1"):
            return ret(cx, some(K([x for x, y in ISO.items() if y == r][0])))
        return ret(cx, K(r))
    v = mark(ip.labels(a, cx.st), n)
    if n.endswith("3"):
        return ret(cx, v)
    return [(cx.st, some(v)), (cx.st.copy(), NONE)]


@m("core::str::split_once", "core::str::rsplit_once")
def split_once(ip, cx):
    l = SL(ip.labels(cx.args[0], cx.st))
    return [(cx.st, some(("t", (s_ext(l, "#a"), s_ext(l, "#b"))))), (cx.st.copy(), NONE)]


@m("core::str::split", "core::str::lines", "core::str::chars", "core::str::split_whitespace", "core::str::bytes", "core::str::splitn")
def s_split(ip, cx):
    l = mark(ip.labels(cx.args[0], cx.st), cx.np.split("::")[-1])
    return ret(cx, ("c", l, None, frozenset()))


@m("core::str::starts_with", "core::str::ends_with", "core::str::contains", "core::str::eq_ignore_ascii_case")
def s_test(ip, cx):
    a, b = strval(cx, cx.args[0]), strval(cx, cx.args[1])
    if a[0] == "k" and b[0] == "k" and isinstance(a[1], str) and isinstance(b[1], str):
        n = cx.np.split("::")[-1]
        f = {"starts_with": a[1].startswith, "ends_with": a[1].endswith, "contains": lambda x: x in a[1], "eq_ignore_ascii_case": lambda x: a[1].lower() == x.lower()}[n]
        return ret(cx, K(int(f(b[1]))))
    return ret(cx, SL(ip.labels(a) | ip.labels(b)))


@m("core::str::strip_prefix", "core::str::strip_suffix")
def s_strip(ip, cx):
    a = strval(cx, cx.args[0])
    return [(cx.st, some(mark(ip.labels(a), cx.np.split("::")[-1]))), (cx.st.copy(), NONE)]


@m("alloc::string::String::from_utf8", "core::str::converts::from_utf8")
def from_utf8(ip, cx):
    v = dv(cx, 0)
    return [(cx.st, ok(v)), (cx.st.copy(), err(SL(ip.labels(v, cx.st))))]


@m("alloc::string::String::from_utf8_lossy", "serde::__private::string::from_utf8_lossy")
def utf8_lossy(ip, cx):
    return ret(cx, dv(cx, 0))


@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def s_new(ip, cx):
    return ret(cx, K(""))


# ------------------------------------------------------------------ comparison
def eqpred(cx, a, b, positive=True):
    """a, b: argument values (pointers allowed); -> value"""
    ip = cx.ip
    x, y = ip.deref(cx.st, a), ip.deref(cx.st, b)
    if x is None or y is None:
        return None
    if x[0] == "k" and y[0] != "k":
        a, b, x, y = b, a, y, x
    if x[0] == "k" and y[0] == "k":
        if type(x[1]) is type(y[1]):
            return K(int((x[1] == y[1]) == positive))
        return TOP
    sm = same(ip, cx.st, x, y)
    if sm is not None:
        return K(int(sm == positive))
    if y[0] == "k":
        t = lastptr(cx, a)
        if t is not None and x[0] == "s":
            return ("p", "eqk", positive, (t, y, ("s", ip.labels(x))))
        if x[0] == "cat" and isinstance(y[1], str):
            return TOP
        return TOP
    for _ in range(2):
        if y[0] == "a" and len(y[2]) == 1 and not y[2][0][1]:
            if x[0] == "a" and x[1] == y[1]:
                vs = [i for i, _ in x[2]]
                if y[2][0][0] not in vs:
                    return K(int(not positive))
                if len(vs) == 1:
                    return K(int(positive))
            t = lastptr(cx, a)
            if t is not None:
                return ("p", "var", positive, (t, y[1], frozenset([y[2][0][0]])))
        a, b, x, y = b, a, y, x
    if x[0] == "a" and y[0] == "a" and x[1] == y[1]:
        if not ({i for i, _ in x[2]} & {i for i, _ in y[2]}):
            return K(int(not positive))
    return SL(ip.labels(x, cx.st) | ip.labels(y, cx.st))


def lastptr(cx, v):
    """targets of the last pointer in a pointer chain"""
    n = 8
    while v is not None and v[0] == "r" and n:
        inner = cx.ip.loadall(cx.st, v[1])
        if inner is not None and inner[0] == "r":
            v = inner
            n -= 1
            continue
        return tuple(sorted(v[1], key=repr))
    return None


@m("core::cmp::PartialEq::eq", "core::slice::cmp::SlicePartialEq::equal")
def p_eq(ip, cx):
    return ret(cx, eqpred(cx, cx.args[0], cx.args[1], True))


@m("core::cmp::PartialEq::ne")
def p_ne(ip, cx):
    return ret(cx, eqpred(cx, cx.args[0], cx.args[1], False))


@m("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discr_value(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    if v[0] == "a" and len(v[2]) == 1:
        return ret(cx, K(ip.discr_of(v[1], v[2][0][0])))
    t = lastptr(cx, cx.args[0])
    ty = cx.c["a"][0]
    if t and ty["k"] == "adt":
        return ret(cx, ("d", t, ty["p"]))
    return ret(cx, TOP)


# ------------------------------------------------------------------ Option / Result
def optlike(cx):
    return OPTION if "option::Option" in cx.np else RESULT


@m("core::option::Option::is_some", "core::option::Option::is_none", "core::result::Result::is_ok", "core::result::Result::is_err")
def is_var(ip, cx):
    n = cx.np.split("::")[-1]
    adt = optlike(cx)
    var = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[n]
    v = dv(cx, 0)
    if v is None:
        return []
    if v[0] == "a" and len(v[2]) == 1:
        return ret(cx, K(int(v[2][0][0] == var)))
    t = lastptr(cx, cx.args[0])
    if t is None:
        return ret(cx, TOP)
    return ret(cx, ("p", "var", True, (t, adt, frozenset([var]))))


@m("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect",
   "core::result::Result::unwrap_err", "core::option::Option::unwrap_unchecked", "core::result::Result::expect_err")
def unwrap(ip, cx):
    adt = optlike(cx)
    good = 1 if adt == OPTION or cx.np.endswith("_err") else 0
    vs = variants(cx, cx.args[0], adt)
    if (len(vs) > 1 or good not in vs) and not (adt == RESULT and good == 0 and vs[1] and vs[1][0] in ENVIRONMENT):
        panic(cx, "unwrap")
    if good not in vs:
        return []
    return ret(cx, vs[good][0])


# errors of the environment (a failing disk, a lock held by a thread that panicked): outside of what the rules decide
ENVIRONMENT = (S("!sql-error"), S("!poisoned"))


@m("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def unwrap_or(ip, cx):
    adt = optlike(cx)
    good = 1 if adt == OPTION else 0
    vs = variants(cx, cx.args[0], adt)
    r = None
    if good in vs:
        r = vs[good][0]
    if 1 - good in vs:
        r = ip.join(r, cx.args[1])
    return ret(cx, r)


@m("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(ip, cx):
    adt = optlike(cx)
    good = 1 if adt == OPTION else 0
    vs = variants(cx, cx.args[0], adt)
    out = []
    if good in vs:
        out.append((cx.st.copy(), vs[good][0]))
    if 1 - good in vs:
        out += dflts(cx, cx.c["a"][0], cx.st.copy())
    return ip.compact(out)


def dflts(cx, t, st):
    """the default value of a type, by its own implementation if the workspace has one -> [(state, value)]"""
    ip = cx.ip
    if t["k"] == "tuple" and t.get("a"):
        cur = [(st, ())]
        for u in t["a"]:
            cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in dflts(cx, u, s)]
        return [(s, ("t", vs)) for s, vs in cur]
    if t["k"] == "adt":
        for u, f in ip.F.impls.get(("core::default::Default", "default"), ()):
            if u["k"] == "adt" and u["p"] == t["p"]:
                return ip.call_fn(f, [], st, (cx.site[0], f.h), cx.chain, cx.fid)
    return [(st, dflt_of(t))]


def dflt_of(t):
    n = tyname(t)
    if n == "alloc::string::String" or t["k"] == "str":
        return K("")
    if n.split("::")[-1] in ("Vec", "HashSet", "BTreeSet", "IndexSet"):
        return ("t", ())
    if n.split("::")[-1] in ("HashMap", "IndexMap", "BTreeMap"):
        return ("m", (), frozenset())
    if n == OPTION:
        return NONE
    if t["k"] in ("prim", "bool"):
        return K(0)
    return S("default")


@m("core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else")
def unwrap_or_else(ip, cx):
    adt = optlike(cx)
    good = 1 if adt == OPTION else 0
    vs = variants(cx, cx.args[0], adt)
    out = []
    if good in vs:
        out.append((cx.st.copy(), vs[good][0]))
    if 1 - good in vs:
        out += one(cx, cx.args[1], list(vs[1 - good]))
    return ip.compact(out)


def branches(cx, good_f, bad_f):
    """apply functions to the payloads; each returns [(st, value)]"""
    adt = optlike(cx)
    good = 1 if adt == OPTION else 0
    vs = variants(cx, cx.args[0], adt)
    out = []
    if good in vs:
        out += good_f(cx.st.copy(), vs[good][0])
    if 1 - good in vs:
        out += bad_f(cx.st.copy(), vs[1 - good])
    return cx.ip.compact(out)


def wrap(cx, good, v):
    adt = optlike(cx)
    if adt == OPTION:
        return some(v) if good else NONE
    return ok(v) if good else err(v)


@m("core::option::Option::map", "core::result::Result::map")
def o_map(ip, cx):
    return branches(cx, lambda s, v: [(s2, wrap(cx, True, r)) for s2, r in one(cx, cx.args[1], [v], s)],
                    lambda s, fs: [(s, wrap(cx, False, fs[0] if fs else None))])


@m("core::option::Option::and_then", "core::result::Result::and_then")
def o_and_then(ip, cx):
    return branches(cx, lambda s, v: one(cx, cx.args[1], [v], s), lambda s, fs: [(s, wrap(cx, False, fs[0] if fs else None))])


@m("core::option::Option::inspect", "core::result::Result::inspect")
def o_inspect(ip, cx):
    def g(s, v):
        cx.st = s
        p = tmp(cx, "inspect", v)
        return [(s2, wrap(cx, True, v)) for s2, _ in one(cx, cx.args[1], [p], s)]
    return branches(cx, g, lambda s, fs: [(s, wrap(cx, False, fs[0] if fs else None))])


@m("core::option::Option::filter")
def o_filter(ip, cx):
    def g(s, v):
        cx.st = s
        p = tmp(cx, "filter", v)
        out = []
        for s2, r in one(cx, cx.args[1], [p], s):
            for truth in (True, False):
                s3 = s2.copy()
                if ip.assume(s3, r, truth):
                    t = list(p[1])[0]
                    out.append((s3, some(ip.load(s3, t)) if truth else NONE))
        return out
    return branches(cx, g, lambda s, fs: [(s, NONE)])


@m("core::result::Result::map_err")
def map_err(ip, cx):
    return branches(cx, lambda s, v: [(s, ok(v))], lambda s, fs: [(s2, err(r)) for s2, r in one(cx, cx.args[1], list(fs), s)])


@m("core::result::Result::or_else", "core::option::Option::or_else")
def or_else(ip, cx):
    return branches(cx, lambda s, v: [(s, wrap(cx, True, v))], lambda s, fs: one(cx, cx.args[1], list(fs), s))


@m("core::option::Option::or", "core::result::Result::or")
def o_or(ip, cx):
    return branches(cx, lambda s, v: [(s, wrap(cx, True, v))], lambda s, fs: [(s, cx.args[1])])


@m("core::option::Option::and", "core::result::Result::and")
def o_and(ip, cx):
    return branches(cx, lambda s, v: [(s, cx.args[1])], lambda s, fs: [(s, wrap(cx, False, fs[0] if fs else None))])


@m("core::option::Option::xor")
def o_xor(ip, cx):
    return ret(cx, ip.join(cx.args[0], cx.args[1]))


@m("core::option::Option::ok_or")
def ok_or(ip, cx):
    return branches(cx, lambda s, v: [(s, ok(v))], lambda s, fs: [(s, err(cx.args[1]))])


@m("core::option::Option::ok_or_else")
def ok_or_else(ip, cx):
    return branches(cx, lambda s, v: [(s, ok(v))], lambda s, fs: [(s2, err(r)) for s2, r in one(cx, cx.args[1], [], s)])


@m("core::result::Result::ok")
def r_ok(ip, cx):
    return branches(cx, lambda s, v: [(s, some(v))], lambda s, fs: [(s, NONE)])


@m("core::result::Result::err")
def r_err(ip, cx):
    return branches(cx, lambda s, v: [(s, NONE)], lambda s, fs: [(s, some(fs[0]))])


@m("core::option::Option::transpose")
def o_transpose(ip, cx):
    out = []
    vs = variants(cx, cx.args[0], OPTION)
    if 0 in vs:
        out.append((cx.st.copy(), ok(NONE)))
    if 1 in vs:
        rs = variants(cx, vs[1][0], RESULT)
        if 0 in rs:
            out.append((cx.st.copy(), ok(some(rs[0][0]))))
        if 1 in rs:
            out.append((cx.st.copy(), err(rs[1][0])))
    return ip.compact(out)


@m("core::option::Option::flatten")
def o_flatten(ip, cx):
    return branches(cx, lambda s, v: [(s, v)], lambda s, fs: [(s, NONE)])


@m("core::option::Option::is_some_and", "core::result::Result::is_ok_and")
def is_some_and(ip, cx):
    return branches(cx, lambda s, v: one(cx, cx.args[1], [v], s), lambda s, fs: [(s, FALSE)])


@m("core::option::Option::map_or", "core::result::Result::map_or")
def map_or(ip, cx):
    return branches(cx, lambda s, v: one(cx, cx.args[2], [v], s), lambda s, fs: [(s, cx.args[1])])


@m("core::option::Option::map_or_else", "core::result::Result::map_or_else")
def map_or_else(ip, cx):
    return branches(cx, lambda s, v: one(cx, cx.args[2], [v], s), lambda s, fs: one(cx, cx.args[1], list(fs), s))


@m("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref", "core::option::Option::as_deref_mut",
   "core::result::Result::as_ref", "core::result::Result::as_mut", "core::result::Result::as_deref")
def as_ref(ip, cx):
    adt = optlike(cx)
    v = dv(cx, 0)
    if v is None:
        return []
    vs = variants(cx, v, adt)
    out = []
    for i, fs in vs.items():
        if fs:
            if v[0] == "s":
                p = ("r", frozenset([("S", ip.labels(v), ())]))
            else:
                p = ptr(cx, 0, (".", i, 0, adt))
            out.append((i, (p,)))
        else:
            out.append((i, ()))
    return ret(cx, ("a", adt, tuple(sorted(out))))


@m("core::option::Option::take")
def o_take(ip, cx):
    v = dv(cx, 0)
    store(cx, 0, NONE)
    return ret(cx, v)


@m("core::option::Option::replace", "core::mem::replace")
def o_replace(ip, cx):
    v = dv(cx, 0)
    nv = cx.args[1]
    store(cx, 0, some(nv) if cx.np.startswith("core::option") else nv)
    return ret(cx, v)


@m("core::option::Option::insert", "core::option::Option::get_or_insert")
def o_insert(ip, cx):
    nv = some(cx.args[1])
    if cx.np.endswith("get_or_insert"):
        v = dv(cx, 0)
        vs = variants(cx, v, OPTION)
        nv = ("a", OPTION, ((1, (ip.join(vs[1][0] if 1 in vs else None, cx.args[1] if 0 in vs else None),)),))
    store(cx, 0, nv)
    return ret(cx, ptr(cx, 0, (".", 1, 0, OPTION)))


@m("core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert_default")
def o_goiw(ip, cx):
    v = dv(cx, 0)
    vs = variants(cx, v, OPTION)
    out = []
    if 1 in vs:
        out.append((cx.st.copy(), vs[1][0]))
    if 0 in vs:
        if len(cx.args) > 1:
            out += one(cx, cx.args[1], [])
        else:
            out.append((cx.st.copy(), EMPTY))
    r = []
    for s, x in out:
        cx.st = s
        store(cx, 0, some(x))
        r.append((s, ptr(cx, 0, (".", 1, 0, OPTION))))
    return r


@m("core::mem::take")
def mem_take(ip, cx):
    v = dv(cx, 0)
    t = cx.c["a"][0]
    out = []
    for s, d in dflts(cx, t, cx.st):
        cx.st = s
        store(cx, 0, d)
        out.append((s, v))
    return out


@m("core::mem::swap")
def mem_swap(ip, cx):
    a, b = dv(cx, 0), dv(cx, 1)
    store(cx, 0, b)
    store(cx, 1, a)
    return ret(cx, UNIT)


@m("core::mem::drop")
def mem_drop(ip, cx):
    return ret(cx, UNIT)


@m("core::default::Default::default")
def default_default(ip, cx):
    return dflts(cx, cx.c["a"][0], cx.st)


# ------------------------------------------------------------------ collections
VEMPTY = ("t", ())
MEMPTY = ("m", (), frozenset())
EXMAX = 320
SEQ = ("alloc::vec::Vec", "std::collections::hash::set::HashSet", "indexmap::set::IndexSet", "alloc::collections::btree::set::BTreeSet",
       "alloc::collections::vec_deque::VecDeque", "alloc::collections::linked_list::LinkedList")
MAPT = ("std::collections::hash::map::HashMap", "indexmap::map::IndexMap", "alloc::collections::btree::map::BTreeMap", "serde_json::map::Map")
for ty in SEQ:
    for n in ("new", "with_capacity"):
        M[ty + "::" + n] = lambda ip, cx: ret(cx, VEMPTY)
for ty in MAPT:
    for n in ("new", "with_capacity"):
        M[ty + "::" + n] = lambda ip, cx: ret(cx, MEMPTY)
COLS = SEQ + MAPT + ("core::slice", "alloc::slice", "core::array")


def mc(*names):
    def deco(f):
        for t in COLS:
            for n in names:
                M[t + "::" + n] = f
        return f
    return deco


def is_map_np(np):
    return any(x in np for x in ("HashMap", "IndexMap", "BTreeMap", "::Map"))


def exact(v):
    return v is not None and v[0] in ("t", "m")


def word(x):
    """a symbol for one word of letters and digits"""
    return x[0] == "s" and sym(x) and not anytext(x)


def same(ip, st, a, b):
    """are two values the same runtime value: True / False / None"""
    a, b = ip.deref(st, a), ip.deref(st, b)
    if a is None or b is None:
        return None
    if a == b:
        return True if unique(ip, st, a) else None
    if a[0] == "k" and b[0] == "k":
        return False if type(a[1]) is type(b[1]) else None
    if a[0] == "s" and b[0] == "s" and sym(a) and sym(b):
        return False
    if a[0] == "a" and b[0] == "a" and a[1] == b[1] and not ({i for i, _ in a[2]} & {i for i, _ in b[2]}):
        return False
    if a[0] == "a" and b[0] == "a" and a[1] == b[1] and len(a[2]) == 1 and len(b[2]) == 1:
        r = [same(ip, st, x, y) for x, y in zip(a[2][0][1], b[2][0][1])]
        if any(x is False for x in r):
            return False
        if all(r):
            return True
    if {a[0], b[0]} == {"k", "s"}:
        k, x = (a, b) if a[0] == "k" else (b, a)
        if isinstance(k[1], str) and sym(x):
            import bytemodels
            w = bytemodels.width(x)
            if w is not None and len(k[1].encode()) != w:
                return False
            if not anytext(x) and not any(c.isalnum() for c in k[1]):
                return False        # a word is not made of punctuation alone
            if word(x) and not all(c.isalnum() for c in k[1]):
                return False        # a word is made of letters and digits alone
    if "cat" in (a[0], b[0]) and a[0] in ("cat", "k", "s") and b[0] in ("cat", "k", "s"):
        return sametext(a, b)
    if a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]):
        r = [same(ip, st, x, y) for x, y in zip(a[1], b[1])]
        if any(x is False for x in r):
            return False
        if all(r):
            return True
    return None


def sametext(a, b):
    """different texts made of constants and symbols: False when they differ for sure"""
    import bytemodels as bm
    f, g = bm.flat(a), bm.flat(b)
    if f is None or g is None:
        return None
    for x, y in ((f, g), (g, f)):
        if all(isinstance(e, int) for e in x) and any(isinstance(e, int) and y.count(e) > x.count(e) for e in y):
            return False        # a constant that lacks a byte of the other
        syms = [e for e in x if not isinstance(e, int)]
        if not any(anytext(e) or not sym(e) for e in syms):
            said = "-_" if any(bm.width(e) for e in syms) else ""
            if any(isinstance(e, int) and e < 128 and not chr(e).isalnum() and chr(e) not in said and y.count(e) > x.count(e) for e in y):
                return False    # words and identifiers do not contain it
    while f and g and f[0] == g[0]:
        f, g = f[1:], g[1:]
    while f and g and f[-1] == g[-1]:
        f, g = f[:-1], g[:-1]
    if not f and not g:
        return None
    for x, y in ((f, g), (g, f)):
        if not x and any(isinstance(e, int) or not anytext(e) for e in y):
            return False
    if f and g and (isinstance(f[0], int) and isinstance(g[0], int) or isinstance(f[-1], int) and isinstance(g[-1], int)):
        return False
    if len(f) == 1 and len(g) == 1 and not isinstance(f[0], int) and not isinstance(g[0], int):
        return False
    l, n = bm.lin(bm.length(f)), bm.lin(bm.length(g))
    if not l[1] and not n[1] and l[0] != n[0]:
        return False
    if f and g and bm.width(f[0] if not isinstance(f[0], int) else S()) and bm.width(g[0] if not isinstance(g[0], int) else S()):
        return False            # two SAIDs at the same place
    return None


def sym(v):
    return len(v[1]) == 1 and next(iter(v[1])).startswith("!")


def anytext(v):
    """a symbol that may be any text: empty, with blanks, colons…; other symbols stand for words"""
    return v[0] == "s" and len(v[1]) == 1 and next(iter(v[1])).startswith("!*")


def unique(ip, st, v):
    v = ip.deref(st, v)
    if v is None:
        return False
    if v[0] == "k":
        return True
    if v[0] == "s":
        return sym(v)
    if v[0] == "a":
        return len(v[2]) == 1 and all(unique(ip, st, x) for x in v[2][0][1])
    if v[0] in ("t", "cat"):
        return all(unique(ip, st, x) for x in v[1])
    return False


def constkey(cx, k):
    k = cx.ip.deref(cx.st, k)
    return k[1] if k is not None and k[0] == "k" and isinstance(k[1], str) else None


def kext(v, key):
    """component of an unknown map under a constant key"""
    if v is not None and v[0] == "s" and key is not None:
        return ("s", frozenset((l[:-2] if l.endswith("[]") else l) + '["' + key + '"]' for l in v[1]))
    return v


def mput(cx, mv, k, v):
    """insert into an exact map; -> (map, old value or None, index)"""
    ip = cx.ip
    ent = list(mv[1])
    for i, (kk, vv) in enumerate(ent):
        if same(ip, cx.st, kk, k):
            old = vv
            ent[i] = (kk, v)
            return ("m", tuple(ent), mv[2]), old, i
    if len(ent) >= EXMAX:
        c = ip.tocol(mv)
        return ("c", ip.join(c[1], v), ip.join(c[2], k), c[3]), None, None
    ent.append((k, v))
    return ("m", tuple(ent), mv[2]), None, len(ent) - 1


def mfind(cx, mv, k):
    """-> (definite index | None, maybe present?, candidates)"""
    cand = []
    for i, (kk, vv) in enumerate(mv[1]):
        r = same(cx.ip, cx.st, kk, k)
        if r is True:
            return i, True, [i]
        if r is None:
            cand.append(i)
    return None, bool(cand), cand


@mc("push", "push_back", "push_front")
def push(ip, cx):
    v = dv(cx, 0)
    if v is None:
        v = VEMPTY
    x = cx.args[1]
    if v[0] == "t" and len(v[1]) < EXMAX:
        store(cx, 0, ("t", v[1] + (x,) if not cx.np.endswith("push_front") else (x,) + v[1]))
        return ret(cx, UNIT)
    c = asc(cx, v)
    store(cx, 0, ("c", ip.join(c[1], x), c[2], c[3]))
    return ret(cx, UNIT)


@mc("insert", "insert_full", "shift_insert", "insert_sorted")
def insert(ip, cx):
    v = dv(cx, 0)
    n = len(cx.args)
    if v is None:
        v = EMPTY
    if n == 2:       # set
        x = cx.args[1]
        if v[0] == "t" and len(v[1]) < EXMAX:
            rs = [same(ip, cx.st, y, x) for y in v[1]]
            if any(r is True for r in rs):
                return ret(cx, FALSE)
            if all(r is False for r in rs):
                store(cx, 0, ("t", v[1] + (x,)))
                return ret(cx, TRUE)
        c = asc(cx, v)
        store(cx, 0, ("c", ip.join(c[1], x), c[2], c[3]))
        return ret(cx, TOP)
    if "vec::Vec" in cx.np:
        i = cx.args[1]
        if v[0] == "t" and i[0] == "k" and isinstance(i[1], int) and i[1] <= len(v[1]):
            store(cx, 0, ("t", v[1][:i[1]] + (cx.args[2],) + v[1][i[1]:]))
            return ret(cx, UNIT)
        c = asc(cx, v)
        store(cx, 0, ("c", ip.join(c[1], cx.args[2]), c[2], c[3]))
        return ret(cx, UNIT)
    if v[0] == "m":
        nm, old, _ = mput(cx, v, cx.args[1], cx.args[2])
        store(cx, 0, nm)
        if old is not None:
            return ret(cx, some(old))
        r = mfind(cx, v, cx.args[1])
        return ret(cx, opt(None if not r[1] else v[1][r[2][0]][1]))
    c = asc(cx, v)
    store(cx, 0, ("c", ip.join(c[1], cx.args[2]), ip.join(c[2], cx.args[1]), c[3]))
    return ret(cx, opt(c[1]))


@mc("get", "get_mut", "first", "last", "first_mut", "last_mut", "get_index", "get_full", "front", "back", "get_index_mut", "get_key_value", "first_key_value", "last_key_value")
def get(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    n = cx.np.split("::")[-1]
    mp = is_map_np(cx.np)
    if v[0] == "c" and v[1] is None or exact(v) and not v[1]:
        return ret(cx, NONE)
    pick = {"first": 0, "first_mut": 0, "front": 0, "last": -1, "last_mut": -1, "back": -1, "first_key_value": 0, "last_key_value": -1}

    def pair(i):
        return ("t", (ptr(cx, 0, ("mk", i)), ptr(cx, 0, ("mv", i))))
    if exact(v) and n in pick:
        i = pick[n] if pick[n] >= 0 else len(v[1]) - 1
        return ret(cx, some(pair(i) if v[0] == "m" else ptr(cx, 0, ("i", i))))
    if v[0] == "m" and n in ("get", "get_mut", "get_key_value", "get_full"):
        i, may, cand = mfind(cx, v, cx.args[1])
        mk = (lambda j: ptr(cx, 0, ("mv", j))) if n in ("get", "get_mut") else pair if n == "get_key_value" else (lambda j: ("t", (TOP,) + pair(j)[1]))
        if i is not None:
            return ret(cx, some(mk(i)))
        if not may:
            return ret(cx, NONE)
        p = None
        for j in cand:
            p = ip.join(p, mk(j))
        return [(cx.st, some(p)), (cx.st.copy(), NONE)]
    if v[0] == "t" and n in ("get", "get_mut") and len(cx.args) > 1:
        i = dv(cx, 1)
        if i is not None and i[0] == "k" and isinstance(i[1], int):
            return ret(cx, some(ptr(cx, 0, ("i", i[1])))) if i[1] < len(v[1]) else ret(cx, NONE)
    if exact(v) and n in ("get_index", "get_index_mut") and cx.args[1][0] == "k":
        i = cx.args[1][1]
        return ret(cx, some(pair(i) if v[0] == "m" else ptr(cx, 0, ("i", i)))) if i < len(v[1]) else ret(cx, NONE)
    p = ptr(cx, 0, E)
    if n in ("get_index", "get_index_mut", "get_key_value"):
        p = ("t", (ptr(cx, 0, KEY), p)) if mp else p
    elif mp and n == "get" and v[0] == "s":
        ck = constkey(cx, cx.args[1])
        if ck is not None:
            p = ("r", frozenset([("S", kext(s_ext(v, "[]"), ck)[1], ())]))
    elif mp and n == "get" and v[0] == "c" and v[1] is not None and v[1][0] == "s":
        ck = constkey(cx, cx.args[1])
        if ck is not None:
            p = ("r", frozenset([("S", kext(v[1], ck)[1], ())]))
    return [(cx.st, some(p)), (cx.st.copy(), NONE)]


@m("core::str::get", "alloc::string::String::get")
def s_get(ip, cx):
    l = SL(ip.labels(cx.args[0], cx.st))
    return [(cx.st, some(l)), (cx.st.copy(), NONE)]


def bounds(cx, i, z, t=1):
    """the range argument's concrete bounds in something of length z, or (None, None)"""
    r = dv(cx, i)
    if i >= len(cx.args) or not cx.c["a"]:
        return 0, z
    n = tyname(cx.c["a"][t]).split("::")[-1]
    if n == "RangeFull":
        return 0, z
    if r is None or r[0] != "a" or len(r[2]) != 1:
        return None, None
    f = [x[1] if x is not None and x[0] == "k" and isinstance(x[1], int) else None for x in r[2][0][1]]
    if n == "Range" and len(f) > 1:
        return f[0], f[1]
    if n == "RangeFrom" and f:
        return f[0], z
    if n == "RangeTo" and f:
        return 0, f[0]
    if n == "RangeToInclusive" and f and f[0] is not None:
        return 0, f[0] + 1
    if n == "RangeInclusive" and len(f) > 1 and f[1] is not None:
        return f[0], f[1] + 1
    return None, None


def slice_range(ip, cx, v):
    """v[a..b]: a copy is good enough for reading"""
    if v is None:
        return []
    r = dv(cx, 1)
    n = tyname(cx.c["a"][1]).split("::")[-1]
    if n == "RangeFull":
        return ret(cx, cx.args[0])
    if v[0] == "t" and r is not None and r[0] == "a" and len(r[2]) == 1:
        lo, hi = bounds(cx, 1, len(v[1]))
        if lo is not None and hi is not None:
            if lo > hi or hi > len(v[1]):
                panic(cx, "index")
                return []
            return ret(cx, ("t", v[1][lo:hi]))
    panic(cx, "index")
    c = ip.tocol(v) if v[0] == "t" else v
    if c[0] == "s":
        return ret(cx, mark(c[1], "slice"))
    return ret(cx, c)


@m("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(ip, cx):
    t = cx.c["a"][0]
    v = dv(cx, 0)
    if v is not None and v[0] in ("k", "cat") or t["k"] == "str" or tyname(t) == "alloc::string::String":
        return ret(cx, mark(ip.labels(v), "slice"))
    if len(cx.c["a"]) > 1 and "Range" in cx.c["a"][1]["s"]:
        return slice_range(ip, cx, v)
    i = dv(cx, 1)
    if v is not None and v[0] == "m":
        j, may, cand = mfind(cx, v, cx.args[1])
        if j is not None:
            return ret(cx, ptr(cx, 0, ("mv", j)))
        panic(cx, "index")
        if not may:
            return []
    if i is not None and i[0] == "k" and isinstance(i[1], int) and v is not None and v[0] == "t":
        if i[1] >= len(v[1]):
            panic(cx, "index")
            return []
        return ret(cx, ptr(cx, 0, ("i", i[1])))
    if i is not None and i[0] == "k" and isinstance(i[1], str) and v is not None and v[0] == "s":
        return ret(cx, s_ext(v, "[" + i[1] + "]"))
    panic(cx, "index")
    return ret(cx, ptr(cx, 0, E))


@mc("pop", "remove", "swap_remove", "shift_remove", "pop_back", "pop_front", "take", "remove_entry", "shift_remove_entry", "pop_first")
def remove(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    n = cx.np.split("::")[-1]
    isvec = "vec::Vec" in cx.np
    if v[0] == "m" and n not in ("pop", "pop_first"):
        i, may, cand = mfind(cx, v, cx.args[1])
        if i is not None:
            store(cx, 0, ("m", v[1][:i] + v[1][i + 1:], v[2]))
            kk, x = v[1][i]
            return ret(cx, some(("t", (kk, x)) if n.endswith("entry") else x))
        if not may:
            return ret(cx, NONE)
    if v[0] == "t" and isvec and n in ("remove", "swap_remove") and cx.args[1] is not None and cx.args[1][0] == "k":
        i = cx.args[1][1]
        if i < len(v[1]):
            if n == "swap_remove" and i < len(v[1]) - 1:
                store(cx, 0, ("t", v[1][:i] + v[1][-1:] + v[1][i + 1:-1]))
            else:
                store(cx, 0, ("t", v[1][:i] + v[1][i + 1:]))
            return ret(cx, v[1][i])
        panic(cx, "remove")
        return []
    if v[0] == "t" and n in ("pop", "pop_back", "pop_front"):
        if not v[1]:
            return ret(cx, NONE)
        if n == "pop_front":
            store(cx, 0, ("t", v[1][1:]))
            return ret(cx, some(v[1][0]))
        store(cx, 0, ("t", v[1][:-1]))
        return ret(cx, some(v[1][-1]))
    if v[0] == "t" and "Set" in cx.np and n == "remove":
        rs = [same(ip, cx.st, y, cx.args[1]) for y in v[1]]
        if all(r is not None for r in rs):
            store(cx, 0, ("t", tuple(y for y, r in zip(v[1], rs) if not r)))
            return ret(cx, K(int(any(rs))))
    c = asc(cx, v)
    if v[0] != "s":
        store(cx, 0, c)
    if isvec and n in ("remove", "swap_remove"):
        return ret(cx, c[1])
    if "Set" in cx.np:
        return ret(cx, TOP)
    e = c[1]
    if is_map_np(cx.np) and e is not None and e[0] == "s" and len(cx.args) > 1:
        e = kext(e, constkey(cx, cx.args[1]))
    if n.endswith("entry") and e is not None:
        e = ("t", (c[2], e))
    return ret(cx, opt(e)) if e is None else [(cx.st, some(e)), (cx.st.copy(), NONE)]


@mc("contains", "contains_key")
def contains(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    if v[0] == "c" and v[1] is None and v[2] is None:
        return ret(cx, FALSE)
    if v[0] == "m":
        i, may, cand = mfind(cx, v, cx.args[1])
        if i is not None:
            return ret(cx, TRUE)
        if not may:
            return ret(cx, FALSE)
    if v[0] == "t":
        rs = [same(ip, cx.st, y, cx.args[1]) for y in v[1]]
        if any(r is True for r in rs):
            return ret(cx, TRUE)
        if all(r is False for r in rs):
            return ret(cx, FALSE)
    return ret(cx, SL(ip.labels(v, cx.st) | ip.labels(cx.args[1], cx.st)))


@mc("len", "is_empty")
def c_len(ip, cx):
    v = dv(cx, 0)
    n = cx.np.split("::")[-1]
    if v is None:
        return []
    if v[0] == "c" and v[1] is None and v[2] is None:
        return ret(cx, K(0 if n == "len" else 1))
    if exact(v):
        return ret(cx, K(len(v[1]) if n == "len" else int(not v[1])))
    t = lastptr(cx, cx.args[0])
    if n == "is_empty" and t:
        return ret(cx, ("p", "empty", True, (t, ("s", ip.labels(v, cx.st)))))
    return ret(cx, SL(ip.labels(v, cx.st)))


@m("alloc::string::String::len", "core::str::len", "alloc::string::String::is_empty", "core::str::is_empty")
def str_len(ip, cx):
    v = dv(cx, 0)
    n = cx.np.split("::")[-1]
    if v is None:
        return []
    if v[0] == "k" and isinstance(v[1], str):
        return ret(cx, K(len(v[1].encode()) if n == "len" else int(not v[1])))
    if n == "is_empty":
        if v[0] == "s" and sym(v) and not anytext(v):
            return ret(cx, FALSE)       # symbols stand for texts that are not empty
        t = lastptr(cx, cx.args[0])
        if v[0] == "s" and t:
            return ret(cx, ("p", "eqk", True, (t, K(""), ("s", ip.labels(v)))))
        if v[0] == "cat" and any(x[0] == "k" and x[1] for x in v[1]):
            return ret(cx, FALSE)
        return ret(cx, TOP)
    return ret(cx, SL(ip.labels(v, cx.st)))


@mc("clear", "truncate", "drain", "split_off")
def c_clear(ip, cx):
    n = cx.np.split("::")[-1]
    v = dv(cx, 0)
    if n == "clear":
        store(cx, 0, MEMPTY if is_map_np(cx.np) else VEMPTY)
        return ret(cx, UNIT)
    if v is not None and v[0] == "t" and len(cx.args) > 1:
        z, x = len(v[1]), dv(cx, 1)
        lo = hi = None
        if n == "drain":
            lo, hi = bounds(cx, 1, z, -1)
        elif x is not None and x[0] == "k" and isinstance(x[1], int):
            lo, hi = (min(x[1], z) if n == "truncate" else x[1]), z
        if lo is not None and hi is not None:
            if lo > hi or hi > z:
                panic(cx, n)
                return []
            store(cx, 0, ("t", v[1][:lo] + v[1][hi:]))
            return ret(cx, UNIT if n == "truncate" else ("t", v[1][lo:hi]))
    if n == "drain" and exact(v) and v[0] != "t":
        store(cx, 0, (v[0], ()) + v[2:])
        return ret(cx, ("t", tuple(("t", x) for x in v[1])))
    c = asc(cx, v)
    if n == "drain":
        store(cx, 0, EMPTY)
        if is_map_np(cx.np) and c[1] is not None:
            return ret(cx, ("c", ("t", (c[2], c[1])), None, c[3]))
        return ret(cx, ("c", c[1], None, c[3]))
    store(cx, 0, c)
    return ret(cx, UNIT if n == "truncate" else c)


@mc("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_keys", "reverse", "dedup", "reserve", "shrink_to_fit",
    "sort_unstable_keys", "sort_by_cached_key")
def c_sort(ip, cx):
    v = dv(cx, 0)
    n = cx.np.split("::")[-1]
    if n == "reverse" and v is not None and v[0] == "t":
        store(cx, 0, ("t", v[1][::-1]))
    elif n == "dedup" and v is not None and v[0] == "t" and len(v[1]) > 1:
        out, okk = [v[1][0]], True
        for x in v[1][1:]:
            t = same(ip, cx.st, out[-1], x)
            okk = okk and t is not None
            if t is not True:
                out.append(x)
        store(cx, 0, ("t", tuple(out)) if okk else ip.tocol(v))
    elif v is not None and v[0] == "t" and "sort" in n and len(v[1]) > 1:
        c = ip.tocol(v)
        store(cx, 0, ("c", c[1], c[2], frozenset(["sorted"])))
    elif v is not None and v[0] == "c" and "sort" in n:
        store(cx, 0, ("c", v[1], v[2], (v[3] - {"U"}) | {"sorted"}))
    return ret(cx, UNIT)


def seq_states(cx, st, accs):
    return [(st, accs)]


def compact_acc(ip, items, limit=10):
    """merge (state, accumulator) pairs once there are too many"""
    if len(items) <= limit:
        return items
    m_ = {}
    for s, a in items:
        k = s.tok
        if k in m_:
            m_[k] = (ip.joinst(m_[k][0], s)[0], ip.join(m_[k][1], a))
        else:
            m_[k] = (s, a)
    return list(m_.values())


def each(cx, st, elems, f, step):
    """thread states through f over exact elements: step(state, acc, elem, result) -> [(state, acc, stop)]"""
    ip = cx.ip
    cur = [(st, VEMPTY)]
    done = []
    for n, e in enumerate(elems):
        nx = []
        for s, acc in cur:
            if e is None:
                continue
            for s2, r in ip.invoke(s.copy(), f, [e] if not isinstance(e, list) else e, (cx.site[0], "each", n), cx.fid, cx.chain):
                for s3, a, stop in step(s2, acc, e, r):
                    if stop:
                        done.append((s3, a))
                    else:
                        nx.append((s3, a))
        cur = compact_acc(ip, nx)
    return done, cur


def app(ip, acc, v):
    if acc is None:
        return None
    if acc[0] == "t":
        return ("t", acc[1] + (v,))
    c = ip.tocol(acc)
    return ("c", ip.join(c[1], v), c[2], c[3])


@mc("retain", "retain_mut")
def c_retain(ip, cx):
    v = dv(cx, 0)
    if exact(v):
        keep = []
        st = cx.st
        okk = True
        for i in range(len(v[1])):
            a = [ptr(cx, 0, ("mk", i)), ptr(cx, 0, ("mv", i))] if v[0] == "m" else [ptr(cx, 0, ("i", i))]
            rs = ip.invoke(st.copy(), cx.args[1], a, (cx.site[0], "retain", i), cx.fid, cx.chain)
            if len(rs) != 1:
                vals = {r for _, r in rs}
                j = rs[0][0] if rs else st
                for s2, _ in rs[1:]:
                    j = ip.joinst(j, s2)[0]
                st = j
                if len(vals) == 1 and next(iter(vals))[0] == "k":
                    keep.append(bool(next(iter(vals))[1]))
                else:
                    okk = False
                continue
            st, r = rs[0]
            if r is not None and r[0] == "k":
                keep.append(bool(r[1]))
            else:
                okk = False
        cx.st = st
        v = dv(cx, 0)
        if okk:
            store(cx, 0, (v[0], tuple(x for x, k in zip(v[1], keep) if k)) + v[2:])
        else:
            store(cx, 0, ip.tocol(v))
        return ret(cx, UNIT)
    c = asc(cx, v)
    if c is None or c[1] is None:
        return ret(cx, UNIT)
    args = [ptr(cx, 0, KEY), ptr(cx, 0, E)] if is_map_np(cx.np) else [ptr(cx, 0, E)]
    sts, _ = many(cx, cx.st, cx.args[1], args)
    return back(sts, UNIT)


@mc("append")
def c_append(ip, cx):
    v, w = dv(cx, 0), dv(cx, 1)
    if v is not None and w is not None and v[0] == "t" and w[0] == "t":
        store(cx, 0, ("t", v[1] + w[1]))
        store(cx, 1, VEMPTY)
        return ret(cx, UNIT)
    a, b = asc(cx, v), asc(cx, w)
    store(cx, 0, ("c", ip.join(a[1], b[1]), ip.join(a[2], b[2]), a[3] | b[3]))
    store(cx, 1, EMPTY)
    return ret(cx, UNIT)


@m("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::extend")
def extend(ip, cx):
    v = dv(cx, 0)
    t = cx.c["a"][0]
    it = iterate(cx, cx.args[1], cx.c["a"][-1] if cx.np.endswith("extend") else None, byref=cx.np.endswith("from_slice"))
    unref = "Extend<&" in (cx.rp or "") or cx.np.endswith("from_slice")

    def fix(e):
        if unref and e is not None:
            if e[0] == "t" and is_map(t):
                return ("t", tuple(ip.deref(cx.st, x) for x in e[1]))
            return ip.deref(cx.st, e)
        return e
    if v is None:
        v = EMPTY
    if tyname(t) == "alloc::string::String":
        if it[0] == "t":
            r = strval(cx, cx.args[0])
            for e in it[1]:
                r = concat(ip, r, strval(cx, e))
        else:
            r = SL(ip.labels(strval(cx, cx.args[0])) | (ip.labels(it[1], cx.st) if it[1] is not None else frozenset()))
        store(cx, 0, r)
        return ret(cx, UNIT)
    if is_map(t):
        if it[0] == "t" and v[0] == "m" and all(fix(e) is not None and fix(e)[0] == "t" and len(fix(e)[1]) == 2 for e in it[1]):
            for e in it[1]:
                k, x = fix(e)[1]
                if v[0] == "m":
                    v = mput(cx, v, k, x)[0]
                else:
                    v = ("c", ip.join(v[1], x), ip.join(v[2], k), v[3])
            store(cx, 0, v)
            return ret(cx, UNIT)
        it = asc(cx, it)
        e = fix(it[1])
        if e is not None and e[0] == "t" and len(e[1]) == 2:
            k, x = e[1]
        else:
            k, x = (e, e)
        a = asc(cx, v)
        store(cx, 0, ("c", ip.join(a[1], x), ip.join(a[2], k), a[3] | it[3]))
        return ret(cx, UNIT)
    if it[0] == "t" and v[0] == "t" and "Set" not in tyname(t):
        store(cx, 0, ("t", v[1] + tuple(fix(e) for e in it[1])))
        return ret(cx, UNIT)
    it = asc(cx, it)
    a = asc(cx, v)
    store(cx, 0, ("c", ip.join(a[1], fix(it[1])), a[2], a[3] | it[3]))
    return ret(cx, UNIT)


@m("core::iter::traits::collect::FromIterator::from_iter")
def from_iter(ip, cx):
    it = iterate(cx, cx.args[0], cx.c["a"][-1] if len(cx.c["a"]) > 1 else None)
    return collect_to(cx, it, cx.c["a"][0])


def iterate(cx, v, ty, byref=False):
    """IntoIterator::into_iter on an argument value -> iterator value"""
    ip = cx.ip
    if v is None:
        return EMPTY
    mp = is_map(ty) if ty is not None else None
    tags = frozenset(["U"]) if ty is not None and unordered(ty) else frozenset()
    if v[0] == "r":
        inner = ip.deref(cx.st, v)
        if inner is None:
            return EMPTY
        if byref or (ty is not None and ty["k"] == "ref"):
            if ty is not None and isiter(ty) and not is_map(ty):
                return inner if inner[0] == "t" else asc(cx, inner)
            old = cx.args
            cx.args = [v]
            r = iter_ref(cx, inner, mp or inner[0] == "m", tags, tyname(ty) if ty is not None else "")
            cx.args = old
            return r
        v = inner
    if v[0] == "a" and v[1] == OPTION:
        if len(v[2]) == 1:
            return ("t", v[2][0][1])
        e = None
        for i, fs in v[2]:
            for x in fs:
                e = ip.join(e, x)
        return ("c", e, None, frozenset())
    if v[0] == "a" and v[1].startswith("core::ops::range::Range"):
        fs = v[2][0][1]
        if len(fs) >= 2 and fs[0] is not None and fs[1] is not None and fs[0][0] == "k" and fs[1][0] == "k" and fs[1][1] - fs[0][1] <= EXMAX:
            hi = fs[1][1] + (1 if "Inclusive" in v[1] else 0)
            return ("t", tuple(K(i) for i in range(fs[0][1], hi)))
        return ("c", TOP, None, frozenset())
    if v[0] == "m":
        return ("t", tuple(("t", v[1][i]) for i in perm(cx, v, tyname(ty) if ty is not None else "")))
    if v[0] == "t":
        return ("t", tuple(v[1][i] for i in perm(cx, v, tyname(ty)))) if ty is not None and "Set" in tyname(ty) else v
    c = asc(cx, v)
    if c is None:
        return EMPTY
    if mp and c[1] is not None:
        return ("c", ("t", (c[2], c[1])), None, c[3] | tags)
    return ("c", c[1], None, c[3] | tags)


def perm(cx, v, name):
    """positions of the members of an exact map / set in the order its type iterates them"""
    n = len(v[1])
    last = name.split("::")[-1]
    if last in ("HashMap", "HashSet"):
        return range(n - 1, -1, -1) if getattr(cx.ip, "hash_rev", False) else range(n)
    if last in ("BTreeMap", "BTreeSet") or name == "serde_json::map::Map":
        import sermodels
        key = (lambda i: sermodels.skey(cx.ip.deref(cx.st, v[1][i][0]))) if v[0] == "m" else (lambda i: sermodels.skey(cx.ip.deref(cx.st, v[1][i])))
        return sorted(range(n), key=key)
    return range(n)


def iter_ref(cx, inner, mp, tags, name=""):
    """iterate by reference over what args[0] points to"""
    if inner[0] == "a" and inner[1] == OPTION:
        vs = dict(inner[2])
        p = ptr(cx, 0, (".", 1, 0, OPTION)) if vs.get(1) else None
        if p is not None and not (p[0] == "r" and p[1]):
            p = vs[1][0]
        if len(vs) == 1:
            return ("t", (p,) if 1 in vs else ())
        return ("c", p, None, frozenset())
    if inner[0] == "m":
        return ("t", tuple(("t", (ptr(cx, 0, ("mk", i)), ptr(cx, 0, ("mv", i)))) for i in perm(cx, inner, name)))
    if inner[0] == "t":
        return ("t", tuple(ptr(cx, 0, ("i", i)) for i in perm(cx, inner, name)))
    c = asc(cx, inner)
    if c[1] is None and c[2] is None:
        return ("c", None, None, c[3] | tags)
    if mp:
        return ("c", ("t", (ptr(cx, 0, KEY), ptr(cx, 0, E))), None, c[3] | tags)
    return ("c", ptr(cx, 0, E), None, c[3] | tags)


def isiter(ty):
    n = tyname(ty)
    return "::iter" in n.lower() or n.startswith("core::iter") or n.split("::")[-1] in ("Iter", "IntoIter", "Keys", "Values", "Pairs", "Map", "Peekable", "Range")


@m("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(ip, cx):
    t = cx.c["a"][0]
    if cx.args[0][0] == "r" and isiter(t) and not is_map(t):
        return ret(cx, cx.args[0])
    return ret(cx, iterate(cx, cx.args[0], t))


@m("core::option::Option::iter", "core::option::Option::iter_mut")
def o_iter(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    if v[0] == "s":
        v = ip.expand(v, OPTION)
    if v[0] == "a" and v[1] == OPTION and len(v[2]) == 2:
        # an option that may be either: one state per case, so that later steps see which
        return [(cx.st.copy(), ("t", (ptr(cx, 0, (".", 1, 0, OPTION)),))), (cx.st, ("t", ()))]
    return ret(cx, iter_ref(cx, v, False, frozenset()))


@mc("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter", "chunks", "windows", "difference", "union", "intersection", "drain_all", "sorted_keys")
def c_iter(ip, cx):
    n = cx.np.split("::")[-1]
    v = dv(cx, 0)
    if v is None:
        return []
    if exact(v):
        cont = "::".join(cx.np.split("::")[:-1])
        N = perm(cx, v, cont)
        if v[0] == "m":
            if n == "keys":
                return ret(cx, ("t", tuple(ptr(cx, 0, ("mk", i)) for i in N)))
            if n == "into_keys":
                return ret(cx, ("t", tuple(v[1][i][0] for i in N)))
            if n in ("values", "values_mut"):
                return ret(cx, ("t", tuple(ptr(cx, 0, ("mv", i)) for i in N)))
            if n == "into_values":
                return ret(cx, ("t", tuple(v[1][i][1] for i in N)))
            if n in ("iter", "iter_mut"):
                return ret(cx, iter_ref(cx, v, True, frozenset(), cont))
        elif n in ("iter", "iter_mut"):
            return ret(cx, iter_ref(cx, v, False, frozenset(), cont))
        elif n in ("difference", "intersection", "union"):
            w = dv(cx, 1)
            if exact(w):
                out = []
                okk = True
                for i in N:
                    rs = [same(ip, cx.st, v[1][i], y) for y in w[1]]
                    inn = True if any(r is True for r in rs) else False if all(r is False for r in rs) else None
                    if inn is None:
                        okk = False
                    elif (inn and n == "intersection") or (not inn and n == "difference"):
                        out.append(ptr(cx, 0, ("i", i)))
                if okk and n != "union":
                    return ret(cx, ("t", tuple(out)))
    c = asc(cx, v)
    U = frozenset(["U"]) if ("HashMap" in cx.np or "HashSet" in cx.np) else frozenset()
    tags = c[3] | U
    if c[1] is None and c[2] is None:
        return ret(cx, ("c", None, None, tags))
    if n == "keys":
        e = ptr(cx, 0, KEY)
    elif n == "into_keys":
        e = c[2]
    elif n in ("values", "values_mut"):
        e = ptr(cx, 0, E)
    elif n == "into_values":
        e = c[1]
    elif n in ("iter", "iter_mut") and is_map_np(cx.np):
        e = ("t", (ptr(cx, 0, KEY), ptr(cx, 0, E)))
    else:
        e = ptr(cx, 0, E)
        if n == "into_iter":
            e = c[1]
    return ret(cx, ("c", e, None, tags))


@mc("entry")
def c_entry(ip, cx):
    p = ptr(cx, 0)
    e = ("t", (K("entry"), p, cx.args[1]))
    d = cx.dest_ty
    if not d or d["k"] != "adt":
        return ret(cx, e)
    v = dv(cx, 0)
    occ, vac = True, True
    if v is not None and v[0] == "m":
        i, may, _ = mfind(cx, v, cx.args[1])
        occ, vac = may, i is None
    elif v is not None and v[0] == "c" and v[1] is None and v[2] is None:
        occ = False
    names = ("Vacant", "Occupied") if "btree" in d["p"] else ("Occupied", "Vacant")
    vs = [(i, (e,)) for i, n in enumerate(names) if (occ if n == "Occupied" else vac)]
    return [(cx.st.copy() if j else cx.st, A(d["p"], x)) for j, x in enumerate(vs)]


def entry_parts(cx):
    v = cx.args[0]
    if v is not None and v[0] == "r":
        v = cx.ip.deref(cx.st, v)
    if v is not None and v[0] == "a" and v[1].endswith("Entry"):
        fs = {f for _, f in v[2]}
        v = fs.pop()[0] if len(fs) == 1 else v
    if v[0] == "t" and len(v[1]) == 3 and v[1][0] == K("entry"):
        return v[1][1], v[1][2]
    return None, None


def ment(*names):
    def deco(f):
        for t in ("std::collections::hash::map::Entry", "indexmap::map::core::entry::Entry", "indexmap::map::core::Entry", "indexmap::map::entry::Entry", "alloc::collections::btree::map::entry::Entry", "indexmap::map::Entry"):
            for n in names:
                M[t + "::" + n] = f
        return f
    return deco


@ment("or_insert", "or_insert_with", "or_default", "or_insert_with_key")
def or_insert(ip, cx):
    p, k = entry_parts(cx)
    n = cx.np.split("::")[-1]
    if p is None:
        return default(ip, cx)
    a1 = cx.args[1] if len(cx.args) > 1 else None
    cx.args = [p]
    v = dv(cx, 0)
    if v is not None and v[0] == "m":
        i, may, cand = mfind(cx, v, k)
        if i is not None:
            return ret(cx, ptr(cx, 0, ("mv", i)))
    outs = []
    if n == "or_insert":
        outs = [(cx.st, a1)]
    elif n == "or_insert_with":
        outs = one(cx, a1, [])
    elif n == "or_insert_with_key":
        outs = one(cx, a1, [k])
    else:
        t = cx.c["a"]
        outs = dflts(cx, t[1], cx.st) if len(t) > 1 else [(cx.st, S("default"))]
    res_ = []
    for s, d in outs:
        cx.st = s
        v = dv(cx, 0)
        if v is not None and v[0] == "m" and not mfind(cx, v, k)[1]:
            nm, _, i = mput(cx, v, k, d)
            store(cx, 0, nm)
            res_.append((s, ptr(cx, 0, ("mv", i) if i is not None else E)))
            continue
        c = asc(cx, v) if v is not None else EMPTY
        store(cx, 0, ("c", ip.join(c[1], d), ip.join(c[2], k), c[3]))
        res_.append((s, ptr(cx, 0, E)))
    return res_


def mentries(kind, *names):
    def deco(f):
        for t in ("std::collections::hash::map::", "indexmap::map::core::entry::", "indexmap::map::core::", "indexmap::map::core::raw_entry_v1::", "indexmap::map::entry::", "indexmap::map::", "alloc::collections::btree::map::entry::"):
            for n in names:
                M[t + kind + "::" + n] = f
        return f
    return deco


@mentries("OccupiedEntry", "get", "get_mut", "into_mut", "insert", "remove", "shift_remove", "swap_remove", "remove_entry")
def occupied(ip, cx):
    """what the key is known to have in the map"""
    p, k = entry_parts(cx)
    if p is None:
        return default(ip, cx)
    n = cx.np.split("::")[-1]
    val = cx.args[1] if len(cx.args) > 1 else None
    cx.args = [p] + ([k] if n != "insert" else [k, val])
    v = dv(cx, 0)
    if n in ("get", "get_mut", "into_mut"):
        if v is not None and v[0] == "m":
            i, may, cand = mfind(cx, v, k)
            if i is not None:
                return ret(cx, ptr(cx, 0, ("mv", i)))
            if len(cand) == 1:
                return ret(cx, ptr(cx, 0, ("mv", cand[0])))
        return ret(cx, ptr(cx, 0, E))
    cx.np = ("alloc::collections::btree::map::BTreeMap::" if "btree" in cx.np else "std::collections::hash::map::HashMap::") + ("remove" if "remove" in n and n != "remove_entry" else n)
    out = []
    for s, r in M[cx.np](ip, cx):
        # the entry is there: the answer is the value it had
        vs = dict(r[2]) if r is not None and r[0] == "a" and r[1] == OPTION else {}
        if 1 in vs:
            out.append((s, vs[1][0]))
    return out


@mentries("VacantEntry", "insert")
def vacant_insert(ip, cx):
    p, k = entry_parts(cx)
    if p is None:
        return default(ip, cx)
    d = cx.args[1]
    cx.args = [p]
    v = dv(cx, 0)
    if v is not None and v[0] == "m":
        nm, _, i = mput(cx, v, k, d)
        store(cx, 0, nm)
        return ret(cx, ptr(cx, 0, ("mv", i) if i is not None else E))
    c = asc(cx, v) if v is not None else EMPTY
    store(cx, 0, ("c", ip.join(c[1], d), ip.join(c[2], k), c[3]))
    return ret(cx, ptr(cx, 0, E))


@mentries("OccupiedEntry", "key")
@mentries("VacantEntry", "key", "into_key")
@ment("key")
def entry_key(ip, cx):
    p, k = entry_parts(cx)
    if p is None:
        return default(ip, cx)
    if cx.np.endswith("into_key"):
        return ret(cx, k)
    return ret(cx, tmp(cx, "key", k))


@ment("and_modify")
def and_modify(ip, cx):
    p, k = entry_parts(cx)
    if p is None:
        return default(ip, cx)
    f = cx.args[1]
    ent = cx.args[0]
    cx.args = [p]
    v = dv(cx, 0)
    if v is not None and v[0] == "m":
        i, may, cand = mfind(cx, v, k)
        if i is not None:
            return [(s, ent) for s, _ in one(cx, f, [ptr(cx, 0, ("mv", i))])]
        if not may:
            return ret(cx, ent)
    c = asc(cx, v)
    if c is None or c[1] is None:
        return ret(cx, ent)
    sts, _ = many(cx, cx.st, f, [ptr(cx, 0, E)])
    return back(sts, ent)


@m("core::slice::split_at", "core::slice::split_first", "core::slice::split_last")
def split_at(ip, cx):
    v = dv(cx, 0)
    if cx.np.endswith("split_at"):
        k = ip.deref(cx.st, cx.args[1])
        if v is not None and v[0] == "t" and k is not None and k[0] == "k":
            if k[1] > len(v[1]):
                panic(cx, "split_at")
                return []
            return ret(cx, ("t", (("t", v[1][:k[1]]), ("t", v[1][k[1]:]))))
        return ret(cx, ("t", (cx.args[0], cx.args[0])))
    if v is not None and v[0] == "t":
        if not v[1]:
            return ret(cx, NONE)
        if cx.np.endswith("first"):
            return ret(cx, some(("t", (ptr(cx, 0, ("i", 0)), ("t", v[1][1:])))))
        return ret(cx, some(("t", (ptr(cx, 0, ("i", len(v[1]) - 1)), ("t", v[1][:-1])))))
    return [(cx.st, some(("t", (ptr(cx, 0, E), cx.args[0])))), (cx.st.copy(), NONE)]


@m("alloc::boxed::Box::new_uninit")
def new_uninit(ip, cx):
    return ret(cx, ("t", ()))


@m("alloc::boxed::box_assume_init_into_vec_unsafe")
def assume_vec(ip, cx):
    v = ip.deref(cx.st, cx.args[0])
    # MaybeUninit { value: ManuallyDrop { value: [..] } } layers collapse on write; at most one wrapper remains
    while v is not None and v[0] == "a" and len(v[2]) == 1 and v[2][0][1]:
        v = v[2][0][1][-1]
    return ret(cx, v)


# ------------------------------------------------------------------ iterators
IT = "core::iter::traits::iterator::Iterator::"


def mi(*names):
    def deco(f):
        for n in names:
            M[IT + n] = f
            M["core::iter::traits::double_ended::DoubleEndedIterator::" + n] = f
            M["core::iter::traits::exact_size::ExactSizeIterator::" + n] = f
        return f
    return deco


def itv(cx, i=0):
    """iterator argument: exact ('t') or summary ('c')"""
    v = cx.ip.deref(cx.st, cx.args[i])
    if v is None:
        return EMPTY
    if v[0] == "a" and v[1].startswith("core::ops::range::Range"):
        return iterate(cx, v, None)
    return v if v[0] == "t" else asc(cx, v)


@mi("next", "next_back", "last", "min", "max", "nth")
def it_next(ip, cx):
    v = dv(cx, 0)
    if v is None:
        return []
    n = cx.np.split("::")[-1]
    if v[0] == "a" and v[1].startswith("core::ops::range::Range"):
        fs = v[2][0][1]
        lo, hi = fs[0], fs[1] if len(fs) > 1 else None
        if lo is not None and hi is not None and lo[0] == "k" and hi[0] == "k" and n == "next":
            top = hi[1] + (1 if "Inclusive" in v[1] else 0)
            if lo[1] >= top:
                return ret(cx, NONE)
            store(cx, 0, ("a", v[1], ((0, (K(lo[1] + 1),) + tuple(fs[1:])),)))
            return ret(cx, some(lo))
        if v[1].endswith("::RangeFrom") and lo is not None and lo[0] == "k" and n == "next":
            store(cx, 0, ("a", v[1], ((0, (K(lo[1] + 1),)),)))
            return ret(cx, some(lo))
        return [(cx.st, some(TOP)), (cx.st.copy(), NONE)]
    if v[0] == "t":
        if not v[1]:
            return ret(cx, NONE)
        if n == "last":
            return ret(cx, some(v[1][-1]))
        if n == "next_back":
            store(cx, 0, ("t", v[1][:-1]))
            return ret(cx, some(v[1][-1]))
        if n == "next":
            a = lastptr(cx, cx.args[0])
            if a is not None and len(a) == 1:
                store(cx, 0, ("t", v[1][1:]))
                return ret(cx, some(v[1][0]))
        if n == "nth" and cx.args[1][0] == "k":
            i = cx.args[1][1]
            store(cx, 0, ("t", v[1][i + 1:]))
            return ret(cx, some(v[1][i]) if i < len(v[1]) else NONE)
    c = asc(cx, v)
    if c[1] is None:
        return ret(cx, NONE)
    if v[0] == "t":
        store(cx, 0, c)
    return [(cx.st, some(c[1])), (cx.st.copy(), NONE)]


@m("core::iter::adapters::peekable::Peekable::peek", "core::iter::adapters::peekable::Peekable::peek_mut")
def it_peek(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        return ret(cx, some(ptr(cx, 0, ("i", 0))) if c[1] else NONE)
    if c[1] is None:
        return ret(cx, NONE)
    return [(cx.st, some(ptr(cx, 0, E))), (cx.st.copy(), NONE)]


@m("core::iter::adapters::peekable::Peekable::next_if", "core::iter::adapters::peekable::Peekable::next_if_eq")
def next_if(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        if not c[1]:
            return ret(cx, NONE)
        if cx.np.endswith("next_if"):
            done, cur = exact_filter(cx, c[1][:1], cx.args[1], True, lambda s, acc, e, t: [(s, K(int(t)), True)])
            out = []
            for s, t in done:
                if t == K(1):
                    cx2 = cx.st
                    cx.st = s
                    store(cx, 0, ("t", c[1][1:]))
                    out.append((cx.st, some(c[1][0])))
                    cx.st = cx2
                else:
                    out.append((s, NONE))
            return out
    c = asc(cx, c)
    if c[1] is None:
        return ret(cx, NONE)
    return [(cx.st, some(c[1])), (cx.st.copy(), NONE)]


@mi("rev")
def it_rev(ip, cx):
    c = itv(cx)
    return ret(cx, ("t", c[1][::-1]) if c[0] == "t" else c)


@mi("skip", "take", "step_by")
def it_skip(ip, cx):
    c = itv(cx)
    n = cx.np.split("::")[-1]
    k = cx.args[1]
    if n == "take" and c[0] != "t" and k is not None and k[0] == "k" and k[1] <= 64 and cx.c.get("a"):
        c = endless(cx, cx.args[0], cx.c["a"][0], k[1]) or c
    if c[0] == "t" and k is not None and k[0] == "k" and n != "step_by":
        return ret(cx, ("t", c[1][k[1]:] if n == "skip" else c[1][:k[1]]))
    if c[0] == "t" and k is not None and k[0] == "k" and k[1] > 0:
        return ret(cx, ("t", c[1][::k[1]]))
    return ret(cx, asc(cx, c))


@mi("peekable", "by_ref", "fuse")
def it_same(ip, cx):
    return ret(cx, cx.args[0])


@mi("cloned", "copied")
def it_cloned(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        return ret(cx, ("t", tuple(unref1(ip, cx, x) for x in c[1])))
    return ret(cx, ("c", unref1(ip, cx, c[1]), None, c[3]))


def unref1(ip, cx, x):
    if x is not None and x[0] == "r":
        return ip.loadall(cx.st, x[1])
    return x


@mi("map")
def it_map(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = each(cx, cx.st, c[1], cx.args[1], lambda s, acc, e, r: [(s, app(ip, acc, r), False)])
        return cur
    if c[1] is None:
        return ret(cx, ("c", None, None, c[3]))
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    return back(sts, ("c", v, None, c[3]))


M["core::array::map"] = it_map


@mi("for_each")
def it_for_each(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = each(cx, cx.st, c[1], cx.args[1], lambda s, acc, e, r: [(s, acc, False)])
        return [(s, UNIT) for s, _ in cur]
    if c[1] is None:
        return ret(cx, UNIT)
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    return back(sts, UNIT)


@mi("try_for_each")
def it_try_for_each(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        def step(s, acc, e, r):
            cont, brk, _ = trial(cx, r)
            return [(s.copy(), acc, False) for _ in cont] + [(s.copy(), b, True) for b in brk]
        done, cur = each(cx, cx.st, c[1], cx.args[1], step)
        go = trial(cx, None)[2]
        return [(s, go(UNIT)) for s, _ in cur] + done
    go = trial(cx, None)[2]
    if c[1] is None:
        return ret(cx, go(UNIT))
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    brk = trial(cx, v)[1] if v is not None else []
    out = []
    for s in sts.values():
        out.append((s, go(UNIT)))
        out += [(s.copy(), b) for b in brk]
    return out


def trial(cx, v):
    """a `Try` value: (values to go on with, values to stop with, how to wrap a value to go on with)"""
    adt = None
    if v is not None and v[0] == "a" and v[1] in (RESULT, OPTION, CF):
        adt = v[1]
    else:
        for t in reversed(cx.c.get("a") or []):
            n = tyname(t)
            if n in (RESULT, OPTION, CF):
                adt = n
                break
    adt = adt or RESULT
    good = 1 if adt == OPTION else 0
    vs = variants(cx, v, adt) if v is not None else {}
    wrap = lambda x: ("a", adt, ((good, (x,)),))
    return ([vs[good][0]] if good in vs else [], [("a", adt, ((1 - good, tuple(vs[1 - good])),))] if 1 - good in vs else [], wrap)


def spread(cx, st, acc, v):
    """append the members of an iterable value to an accumulator"""
    ip = cx.ip
    old = cx.st
    cx.st = st
    if v is not None and v[0] == "a" and v[1] == RESULT:
        d = dict(v[2])
        it = ("t", d[0]) if len(d) == 1 and 0 in d else ("t", ()) if 0 not in d else ("c", d[0][0], None, frozenset())
    else:
        it = iterate(cx, v, None)
    cx.st = old
    if it[0] == "t" and acc[0] == "t":
        return ("t", acc[1] + it[1])
    a, b = ip.tocol(acc), ip.tocol(it)
    return ("c", ip.join(a[1], b[1]), None, a[3] | b[3])


@mi("flat_map")
def it_flat_map(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = each(cx, cx.st, c[1], cx.args[1], lambda s, acc, e, r: [(s, spread(cx, s, acc, r), False)])
        return cur
    if c[1] is None:
        return ret(cx, ("c", None, None, c[3]))
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    it = ip.tocol(spread(cx, list(sts.values())[-1], ("c", None, None, c[3]), v))
    return back(sts, it)


@mi("flatten")
def it_flatten(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        acc = VEMPTY
        for x in c[1]:
            acc = spread(cx, cx.st, acc, x)
        return ret(cx, acc)
    if c[1] is None:
        return ret(cx, c)
    return ret(cx, ip.tocol(spread(cx, cx.st, ("c", None, None, c[3]), c[1])))


@mi("filter_map")
def it_filter_map(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        def step(s, acc, e, r):
            vs = variants(cx, r, OPTION)
            out = []
            if 1 in vs:
                out.append((s.copy(), app(ip, acc, vs[1][0]), False))
            if 0 in vs:
                out.append((s.copy(), acc, False))
            return out
        done, cur = each(cx, cx.st, c[1], cx.args[1], step)
        return cur
    if c[1] is None:
        return ret(cx, ("c", None, None, c[3]))
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    vs = variants(cx, v, OPTION) if v is not None else {}
    return back(sts, ("c", vs[1][0] if 1 in vs else None, None, c[3]))


@mi("map_while")
def it_map_while(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        def step(s, acc, e, r):
            vs = variants(cx, r, OPTION)
            out = []
            if 1 in vs:
                out.append((s.copy(), app(ip, acc, vs[1][0]), False))
            if 0 in vs:
                out.append((s.copy(), acc, True))
            return out
        done, cur = each(cx, cx.st, c[1], cx.args[1], step)
        return done + cur
    cx.args[0] = asc(cx, c)
    return it_filter_map(ip, cx)


def exact_filter(cx, elems, f, n, on):
    """run predicate f over exact elements by reference; on(state, acc, elem, truth) -> [(state, acc, stop)]"""
    ip = cx.ip
    cur = [(cx.st, VEMPTY)]
    done = []
    for i, e in enumerate(elems):
        nx = []
        for s, acc in cur:
            s = s.copy()
            cell = ip.newfid("flt", cx.fid, cx.site[0], i)
            s.fr[cell] = {0: e}
            p = ("r", frozenset([(cell, 0, ())]))
            for s2, r in ip.invoke(s, f, [p if n else e], (cx.site[0], "filter", i), cx.fid, cx.chain):
                for truth in (True, False):
                    s3 = s2.copy()
                    if ip.assume(s3, r, truth):
                        x = s3.get(cell, 0)
                        s3.fr.pop(cell, None)
                        for s4, a, stop in on(s3, acc, x, truth):
                            (done if stop else nx).append((s4, a))
        cur = compact_acc(ip, nx)
    return done, cur


def filtered(cx, c, f):
    """elements for which the predicate may hold; -> (states, elem)"""
    ip = cx.ip
    st = cx.st.copy()
    cell = ip.newfid("flt", cx.fid, cx.site[0])
    elem = None
    states = {cx.st.tok: cx.st}
    st.fr[cell] = {0: c[1]}
    p = ("r", frozenset([(cell, 0, ())]))
    for s2, r in ip.invoke(st, f, [p], (cx.site[0], "filter"), cx.fid, cx.chain):
        s3 = s2.copy()
        if ip.assume(s3, r, True):
            elem = ip.join(elem, s3.get(cell, 0))
        s2.fr.pop(cell, None)
        cur = states.get(s2.tok)
        states[s2.tok] = s2 if cur is None else ip.joinst(cur, s2)[0]
    return states, elem


@mi("filter")
def it_filter(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = exact_filter(cx, c[1], cx.args[1], True, lambda s, acc, e, t: [(s, app(ip, acc, e) if t else acc, False)])
        return cur
    if c[1] is None:
        return ret(cx, c)
    sts, e = filtered(cx, c, cx.args[1])
    return back(sts, ("c", e, None, c[3]))


@mi("take_while", "skip_while")
def it_take_while(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        take = cx.np.endswith("take_while")

        def on(s, acc, e, t):
            if t:
                return [(s, app(ip, acc, e if take else UNIT), False)]
            if take:
                return [(s, acc, True)]
            if acc is None or acc[0] != "t":
                return [(s, ip.tocol(c), True)]
            return [(s, ("t", c[1][len(acc[1]):]), True)]
        done, cur = exact_filter(cx, c[1], cx.args[1], True, on)
        return compact_acc(ip, done + [(s, acc if take else VEMPTY) for s, acc in cur])
    if c[1] is None:
        return ret(cx, c)
    sts, e = filtered(cx, c, cx.args[1])
    return back(sts, ("c", e, None, c[3]))


@mi("find", "rfind")
def it_find(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        el = c[1] if cx.np.endswith("::find") else c[1][::-1]
        done, cur = exact_filter(cx, el, cx.args[1], True, lambda s, acc, e, t: [(s, some(e) if t else acc, t)])
        return ip.compact(done + [(s, NONE) for s, _ in cur])
    if c[1] is None:
        return ret(cx, NONE)
    sts, e = filtered(cx, c, cx.args[1])
    out = []
    for s in sts.values():
        if e is not None:
            out.append((s, some(e)))
        out.append((s.copy(), NONE))
    return out


@mi("partition")
def it_partition(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = exact_filter(cx, c[1], cx.args[1], True, lambda s, acc, e, t: [(s, app(ip, acc, ("t", (K(int(t)), e))), False)])
        if all(acc is not None and acc[0] == "t" and all(x[1][0] in (K(0), K(1)) for x in acc[1]) for _, acc in cur):
            to = cx.c["a"][1] if len(cx.c.get("a") or []) > 1 else None
            return [(s, ("t", tuple(collect_val(cx, ("t", tuple(x[1][1] for x in acc[1] if x[1][0] == K(k))), to) if to else
                                    ("t", tuple(x[1][1] for x in acc[1] if x[1][0] == K(k))) for k in (1, 0)))) for s, acc in cur]
        return [(s, ("t", (ip.tocol(c), ip.tocol(c)))) for s, _ in cur]
    if c[1] is None:
        return ret(cx, ("t", (EMPTY, EMPTY)))
    sts, e = filtered(cx, c, cx.args[1])
    return back(sts, ("t", (("c", e, None, c[3]), ("c", c[1], None, c[3]))))


@mi("find_map")
def it_find_map(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        def step(s, acc, e, r):
            vs = variants(cx, r, OPTION)
            out = []
            if 1 in vs:
                out.append((s.copy(), some(vs[1][0]), True))
            if 0 in vs:
                out.append((s.copy(), acc, False))
            return out
        done, cur = each(cx, cx.st, c[1], cx.args[1], step)
        return ip.compact(done + [(s, NONE) for s, _ in cur])
    if c[1] is None:
        return ret(cx, NONE)
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    vs = variants(cx, v, OPTION) if v is not None else {}
    out = []
    for s in sts.values():
        if 1 in vs:
            out.append((s, some(vs[1][0])))
        out.append((s.copy(), NONE))
    return out


@mi("any", "all", "position", "rposition")
def it_any(ip, cx):
    c = itv(cx)
    n = cx.np.split("::")[-1]
    if c[0] == "t":
        stopv = n != "all"

        def on(s, acc, e, t):
            if t == stopv:
                at = TOP if acc is None or acc[0] != "t" else K(len(acc[1]) if n == "position" else len(c[1]) - 1 - len(acc[1]))
                return [(s, TRUE if n == "any" else FALSE if n == "all" else some(at), True)]
            return [(s, app(ip, acc, UNIT) if n.endswith("position") else acc, False)]
        done, cur = exact_filter(cx, c[1] if n != "rposition" else c[1][::-1], cx.args[1], False, on)
        end = FALSE if n == "any" else TRUE if n == "all" else NONE
        rs = done + [(s, end) for s, _ in cur]
        m_ = {}
        for s, v in rs:
            k = (s.tok, v)
            m_[k] = (s if k not in m_ else ip.joinst(m_[k][0], s)[0], v)
        return list(m_.values())
    if c[1] is None:
        return ret(cx, {"any": FALSE, "all": TRUE}.get(n, NONE))
    sts, v = many(cx, cx.st, cx.args[1], [c[1]])
    if n.endswith("position"):
        return [(s2, x) for s in sts.values() for s2, x in ((s, some(TOP)), (s.copy(), NONE))]
    if v is not None and v[0] == "k":
        if n == "any" and not v[1]:
            return back(sts, FALSE)
        if n == "all" and v[1]:
            return back(sts, TRUE)
    return back(sts, SL(ip.labels(v, cx.st) if v is not None else frozenset()))


@mi("fold", "try_fold", "rfold")
def it_fold(ip, cx):
    c = itv(cx)
    init = cx.args[1]
    f = cx.args[2]
    n = cx.np.split("::")[-1]
    tr = n == "try_fold"
    go = trial(cx, None)[2]
    if c[0] == "t":
        cur = [(cx.st, init)]
        done = []
        for i, e in enumerate(c[1]):
            nx = []
            for s, acc in cur:
                for s2, r in ip.invoke(s.copy(), f, [acc, e], (cx.site[0], "fold", i), cx.fid, cx.chain):
                    if not tr:
                        nx.append((s2, r))
                        continue
                    cont, brk, _ = trial(cx, r)
                    nx += [(s2.copy(), x) for x in cont]
                    done += [(s2.copy(), b) for b in brk]
            cur = compact_acc(ip, nx)
        return done + [(s, go(a) if tr else a) for s, a in cur]
    if c[1] is None:
        return ret(cx, init if not tr else go(init))
    acc = [init]

    def feed(val):
        a = acc[0]
        if val is not None:
            x = val
            if tr:
                x = next(iter(trial(cx, val)[0]), None)
            if x is not None:
                a = ip.join(a, x)
        acc[0] = a
        return [a, c[1]]
    sts, v = many(cx, cx.st, f, None, feed=feed)
    if tr:
        cont, brk, _ = trial(cx, v) if v is not None else ([], [], None)
        out = []
        for s in sts.values():
            out.append((s, go(ip.join(init, next(iter(cont), None)))))
            out += [(s.copy(), b) for b in brk]
        return out
    return back(sts, ip.join(init, v))


@mi("reduce")
def it_reduce(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        if not c[1]:
            return ret(cx, NONE)
        cur = [(cx.st, c[1][0])]
        for i, e in enumerate(c[1][1:]):
            cur = compact_acc(ip, [x for s, acc in cur for x in ip.invoke(s.copy(), cx.args[1], [acc, e], (cx.site[0], "fold", i), cx.fid, cx.chain)])
        return [(s, some(a)) for s, a in cur]
    if c[1] is None:
        return ret(cx, NONE)
    acc = [c[1]]

    def feed(val):
        acc[0] = ip.join(acc[0], val)
        return [acc[0], c[1]]
    sts, v = many(cx, cx.st, cx.args[1], None, feed=feed)
    return [x for s in sts.values() for x in ((s, some(ip.join(c[1], v))), (s.copy(), NONE))]


@mi("enumerate")
def it_enumerate(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        return ret(cx, ("t", tuple(("t", (K(i), x)) for i, x in enumerate(c[1]))))
    if c[1] is None:
        return ret(cx, c)
    return ret(cx, ("c", ("t", (TOP, c[1])), None, c[3]))


def endless(cx, v, ty, n):
    """the first n elements of an iterator without end"""
    t = tyname(ty) if ty is not None else ""
    v = cx.ip.deref(cx.st, v)
    if t.endswith("::Repeat") and v is not None and v[0] == "c" and v[1] is not None:
        return ("t", (v[1],) * n)
    if v is not None and v[0] == "a" and v[1].endswith("::RangeFrom"):
        lo = v[2][0][1][0]
        if lo is not None and lo[0] == "k" and isinstance(lo[1], int):
            return ("t", tuple(K(lo[1] + i) for i in range(n)))
    return None


@mi("zip")
def it_zip(ip, cx):
    c = itv(cx)
    u = cx.c["a"][-1] if cx.c.get("a") else None
    d = endless(cx, cx.args[1], u, len(c[1])) if c[0] == "t" else None
    if d is None:
        d = iterate(cx, cx.args[1], u)
    if d[0] == "t" and c[0] != "t" and cx.c.get("a"):
        c = endless(cx, cx.args[0], cx.c["a"][0], len(d[1])) or c
    if c[0] == "t" and d[0] == "t":
        return ret(cx, ("t", tuple(("t", x) for x in zip(c[1], d[1]))))
    c, d = ip.tocol(c), ip.tocol(d)
    if c[1] is None or d[1] is None:
        return ret(cx, EMPTY)
    return ret(cx, ("c", ("t", (c[1], d[1])), None, c[3] | d[3]))


@mi("unzip")
def it_unzip(ip, cx):
    c = itv(cx)
    if c[0] == "t" and all(x is not None and x[0] == "t" and len(x[1]) == 2 for x in c[1]):
        return ret(cx, ("t", (("t", tuple(x[1][0] for x in c[1])), ("t", tuple(x[1][1] for x in c[1])))))
    c = ip.tocol(c)
    if c[1] is None or c[1][0] != "t":
        return ret(cx, ("t", (c, c)))
    return ret(cx, ("t", (("c", c[1][1][0], None, c[3]), ("c", c[1][1][1], None, c[3]))))


@mi("chain")
def it_chain(ip, cx):
    c = itv(cx)
    d = iterate(cx, cx.args[1], cx.c["a"][-1] if cx.c.get("a") else None)
    if c[0] == "t" and d[0] == "t":
        return ret(cx, ("t", c[1] + d[1]))
    c, d = ip.tocol(c), ip.tocol(d)
    return ret(cx, ("c", ip.join(c[1], d[1]), None, c[3] | d[3]))


@mi("inspect")
def it_inspect(ip, cx):
    c = itv(cx)
    if c[0] == "t":
        done, cur = exact_filter(cx, c[1], cx.args[1], True, lambda s, acc, e, t: [(s, app(ip, acc, e), False)] if t else [])
        return cur
    if c[1] is None:
        return ret(cx, c)
    cell = tmp(cx, "insp", c[1])
    sts, v = many(cx, cx.st, cx.args[1], [cell])
    return back(sts, c)


@mi("count", "sum", "product", "size_hint", "len")
def it_count(ip, cx):
    c = itv(cx)
    if cx.np.endswith(("count", "::len")):
        if c[0] == "t":
            return ret(cx, K(len(c[1])))
        if c[1] is None:
            return ret(cx, K(0))
    if c[0] == "t" and cx.np.endswith(("sum", "product")):
        xs = [ip.deref(cx.st, x) for x in c[1]]
        if all(x is not None and x[0] == "k" and isinstance(x[1], int) for x in xs):
            r = sum(x[1] for x in xs) if cx.np.endswith("sum") else math.prod(x[1] for x in xs)
            return ret(cx, K(r))
    return ret(cx, SL(ip.labels(c, cx.st)))


@mi("max_by_key", "min_by_key", "max_by", "min_by")
def it_maxby(ip, cx):
    c = asc(cx, itv(cx))
    if c[1] is None:
        return ret(cx, NONE)
    return [(cx.st, some(c[1])), (cx.st.copy(), NONE)]


@mi("collect")
def it_collect(ip, cx):
    return collect_to(cx, itv(cx), cx.c["a"][1])


def collect_val(cx, c, t):
    ip = cx.ip
    n = tyname(t)
    if c[0] == "t":
        if n == "alloc::string::String":
            r = K("")
            for x in c[1]:
                r = concat(ip, r, strval(cx, x))
            return r
        if is_map(t):
            r = MEMPTY
            for x in c[1]:
                if x is None:
                    continue
                k, v = (x[1][0], x[1][1]) if x[0] == "t" and len(x[1]) == 2 else (ip.rstep(x, (".", None, 0, None)), ip.rstep(x, (".", None, 1, None)))
                r = mput(cx, r, k, v)[0] if r[0] == "m" else ("c", ip.join(r[1], v), ip.join(r[2], k), r[3])
            return r
        if "Set" in n:
            out = []
            for x in c[1]:
                if not any(same(ip, cx.st, y, x) for y in out):
                    out.append(x)
            return ("t", tuple(out))
        return c
    e = c[1]
    if n == "alloc::string::String":
        return SL(ip.labels(c, cx.st)) if e is not None else K("")
    if is_map(t):
        if e is None:
            return EMPTY
        if e[0] == "t" and len(e[1]) == 2:
            return ("c", e[1][1], e[1][0], c[3])
        return ("c", ip.rstep(e, (".", None, 1, None)), ip.rstep(e, (".", None, 0, None)), c[3])
    return ("c", e, None, c[3])


def collect_to(cx, c, t):
    ip = cx.ip
    n = tyname(t)
    if n in (RESULT, OPTION):
        good = 0 if n == RESULT else 1
        inner = t["a"][0]
        mk = ok if n == RESULT else some
        if c[0] == "t":
            gs = VEMPTY
            e_ = None
            alive = True
            for x in c[1]:
                vs = variants(cx, x, n)
                if 1 - good in vs and alive:
                    e_ = ip.join(e_, vs[1 - good][0] if n == RESULT else UNIT)
                if good not in vs:
                    alive = False
                    break
                gs = app(ip, gs, vs[good][0])
            out = []
            if alive:
                out.append((cx.st.copy(), mk(collect_val(cx, gs, inner))))
            if e_ is not None:
                out.append((cx.st.copy(), err(e_) if n == RESULT else NONE))
            return out
        e = c[1]
        if e is None:
            return ret(cx, mk(collect_val(cx, c, inner)))
        vs = variants(cx, e, n)
        out = []
        g = vs[good][0] if good in vs else None
        out.append((cx.st.copy(), mk(collect_val(cx, ("c", g, None, c[3]), inner))))
        if 1 - good in vs:
            out.append((cx.st.copy(), err(vs[1][0]) if n == RESULT else NONE))
        return out
    return ret(cx, collect_val(cx, c, t))


@m("core::iter::sources::once::once", "core::iter::sources::repeat::repeat")
def it_once(ip, cx):
    return ret(cx, ("t", (cx.args[0],)) if cx.np.endswith("once") else ("c", cx.args[0], None, frozenset()))


@m("core::iter::sources::empty::empty")
def it_empty(ip, cx):
    return ret(cx, VEMPTY)


# ------------------------------------------------------------------ misc
@m("<(dyn core::any::Any + 'static)>::downcast_ref", "<(dyn core::any::Any + 'static)>::downcast_mut", "<dyn core::any::Any>::downcast_ref", "core::any::downcast_ref",
   "<(dyn core::any::Any + 'static)>::is", "<dyn core::any::Any>::downcast_mut")
def downcast(ip, cx):
    v = dv(cx, 0)
    t = cx.c["a"][-1]
    isp = cx.np.endswith("::is")
    if v is None:
        return []
    al = [v] if v[0] != "or" else list(v[1])
    yes = any(x[0] != "a" or x[1] == tyname(t) for x in al)
    no = any(x[0] != "a" or x[1] != tyname(t) for x in al)
    out = []
    if isp:
        return ret(cx, TRUE if not no else FALSE if not yes else TOP)
    if yes:
        out.append((cx.st.copy(), some(ptr(cx, 0))))
    if no:
        out.append((cx.st.copy(), NONE))
    return out


@m("std::sync::poison::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write", "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut")
def lock(ip, cx):
    if "RefCell" in cx.np:
        return ret(cx, cx.args[0])
    return [(cx.st, ok(cx.args[0])), (cx.st.copy(), err(S("!poisoned")))]


@m("std::sync::once_lock::OnceLock::get_or_init")
def get_or_init(ip, cx):
    out = []
    for s, v in one(cx, cx.args[1], []):
        cx.st = s
        out.append((s, tmp(cx, "once", v)))
    return out


@m("std::sync::once_lock::OnceLock::new")
def once_new(ip, cx):
    return ret(cx, S("once"))


@m("log::max_level")
def log_level(ip, cx):
    return ret(cx, TOP)


@m("core::cmp::PartialOrd::le", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::ge", "core::cmp::PartialOrd::gt", "core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def p_ord(ip, cx):
    return ret(cx, SL(ip.labels(cx.args[0], cx.st) | ip.labels(cx.args[1], cx.st)))


# ------------------------------------------------------------------ entry points used by interp
def override(ip, cx, fn):
    """workspace functions that are modelled rather than inlined"""
    t = fn.trait
    if t is None:
        return None
    if fn.derived:
        if t == "core::clone::Clone" and fn.name == "clone":
            return [(cx.st, ip.deref(cx.st, cx.args[0]))]
        if t == "core::cmp::PartialEq" and fn.name in ("eq", "ne"):
            return [(cx.st, eqpred(cx, cx.args[0], cx.args[1], fn.name == "eq"))]
        if t == "core::fmt::Debug":
            return [(cx.st, ok(UNIT))]
        if t == "core::hash::Hash":
            return [(cx.st, UNIT)]
    if t == "dyn_clone::DynClone":
        return [(cx.st, cx.args[0])]
    return None


def model(ip, cx):
    f = M.get(cx.np)
    if f is None:
        n = norm(cx.rp)
        f = M.get(n)
    if f is None:
        return None
    r = f(ip, cx)
    if r is None:
        return None
    return [(s, v) for s, v in r]


CLO = ("clo", "fn")


def default(ip, cx):
    """unknown function: the result depends on the arguments; closures may run any number of times"""
    ip.unmodelled[cx.np] = ip.unmodelled.get(cx.np, 0) + 1
    l = frozenset()
    for a in cx.args:
        l |= ip.labels(a, cx.st)
    for i in cx.mut:
        store(cx, i, mark(l, cx.np.split("::")[-1]))     # it may write through what is borrowed mutably
    st = cx.st
    states = {st.tok: st}
    for a in cx.args:
        if a is not None and a[0] == "clo":
            fn = ip.F.fns.get(a[1])
            n = fn.body.argc - 1 if fn else 0
            others = frozenset()
            for b in cx.args:
                if b is not a:
                    others |= ip.labels(b, st)
            ns = {}
            for s in list(states.values()):
                sts, v = many(cx, s, a, [SL(others)] * n)
                if v is not None:
                    l |= ip.labels(v, s)
                for k, x in sts.items():
                    ns[k] = x if k not in ns else ip.joinst(ns[k], x)[0]
            states = ns
    t = cx.dest_ty
    v = mark(l, cx.np.split("::")[-1])
    if t is not None and t["s"] == "()":
        v = UNIT
    return back(states, v)


# ------------------------------------------------------------------ less common adapters
@m("core::option::Option::is_none_or", "core::result::Result::is_err_and")
def is_none_or(ip, cx):
    if cx.np.endswith("is_err_and"):
        return branches(cx, lambda s, v: [(s, FALSE)], lambda s, fs: one(cx, cx.args[1], list(fs), s))
    return branches(cx, lambda s, v: one(cx, cx.args[1], [v], s), lambda s, fs: [(s, TRUE)])


@m("core::result::Result::inspect_err")
def inspect_err(ip, cx):
    def g(s, fs):
        cx.st = s
        p = tmp(cx, "inspect", fs[0] if fs else None)
        return [(s2, wrap(cx, False, fs[0] if fs else None)) for s2, _ in one(cx, cx.args[1], [p], s)]
    return branches(cx, lambda s, v: [(s, wrap(cx, True, v))], g)


@mi("scan")
def it_scan(ip, cx):
    c = itv(cx)
    f = cx.args[2]
    if c[0] == "t":
        st = cx.st.copy()
        cell = ip.newfid("scan", cx.fid, cx.site[0])
        st.fr[cell] = {0: cx.args[1]}
        p = ("r", frozenset([(cell, 0, ())]))
        cur, done = [(st, VEMPTY)], []
        for i, e in enumerate(c[1]):
            nx = []
            for s, acc in cur:
                for s2, r in ip.invoke(s.copy(), f, [p, e], (cx.site[0], "scan", i), cx.fid, cx.chain):
                    vs = variants(cx, r, OPTION)
                    if 1 in vs:
                        nx.append((s2.copy(), app(ip, acc, vs[1][0])))
                    if 0 in vs:
                        done.append((s2.copy(), acc))
            cur = compact_acc(ip, nx)
        return done + cur
    if c[1] is None:
        return ret(cx, ("c", None, None, c[3]))
    cx.args = [cx.args[0], cx.args[2]]
    return default(ip, cx)


@m("core::iter::sources::repeat_n::repeat_n")
def it_repeat_n(ip, cx):
    n = dv(cx, 1)
    if n is not None and n[0] == "k" and isinstance(n[1], int) and n[1] <= 64:
        return ret(cx, ("t", (cx.args[0],) * n[1]))
    return ret(cx, ("c", cx.args[0], None, frozenset()))


def unfold(cx, st, first, call):
    """values given one after the other until None: exact while every step is determined"""
    ip = cx.ip
    vals, cur = [], first
    for i in range(256):
        vs = variants(cx, cur, OPTION)
        if len(vs) != 1:
            return None
        if 0 in vs:
            return st, ("t", tuple(vals))
        vals.append(vs[1][0])
        rs = call(st, vs[1][0], i)
        if len(rs) != 1:
            return None
        st, cur = rs[0]
    return None


@m("core::iter::sources::successors::successors")
def it_successors(ip, cx):
    def call(st, v, i):
        cx.st = st
        p = tmp(cx, f"succ{i}", v)
        return ip.invoke(st.copy(), cx.args[1], [p], (cx.site[0], "succ", i), cx.fid, cx.chain)
    got = unfold(cx, cx.st.copy(), cx.args[0], call)
    return [got] if got else default(ip, cx)


@m("core::iter::sources::from_fn::from_fn")
def it_from_fn(ip, cx):
    st = cx.st.copy()
    rs = ip.invoke(st.copy(), cx.args[0], [], (cx.site[0], "gen"), cx.fid, cx.chain)
    if len(rs) == 1:
        got = unfold(cx, rs[0][0], rs[0][1], lambda s, v, i: ip.invoke(s.copy(), cx.args[0], [], (cx.site[0], "gen", i), cx.fid, cx.chain))
        if got:
            return [got]
    return default(ip, cx)


@mc("is_subset", "is_superset", "is_disjoint")
def c_subset(ip, cx):
    n = cx.np.split("::")[-1]
    a, b = dv(cx, 0), dv(cx, 1)
    if n == "is_superset":
        a, b = b, a
    if exact(a) and exact(b) and a[0] == b[0] == "t":
        ins = []
        for x in a[1]:
            rs = [same(ip, cx.st, x, y) for y in b[1]]
            ins.append(True if any(r is True for r in rs) else False if all(r is False for r in rs) else None)
        if n == "is_disjoint":
            ins = [None if i is None else not i for i in ins]
        if any(i is False for i in ins):
            return ret(cx, FALSE)
        if all(ins):
            return ret(cx, TRUE)
    return default(ip, cx)
