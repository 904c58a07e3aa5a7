"""File system and sled operations on an abstract disk: files and trees are tables of symbolic texts.

The disk is a value of the state: ("k", (("dir", path), ("file", path, bytes), ("sled", path, tree, ((key, value), …)), …)) with
paths resolved to tuples of components."""
from interp import K, S, SL, ok, err, NONE, some, UNIT
import models as md
from models import m, ret, strval, dv, mark
from strmodels import glue
import textmodels as tm

EXACT = False
IOERR = S("!io-error")


class Unknown(Exception):
    pass


def disk(st):
    v = st.get("DISK", 0) if "DISK" in st.fr else ("k", ())
    if v is None or v[0] != "k" or not isinstance(v[1], tuple):
        raise Unknown("the disk")
    return v[1]


def put(st, d):
    st.fr["DISK"] = {0: ("k", tuple(d))}


def comps(v):
    """components of a path with `.` and `..` resolved; a text that may hold a separator is not a component"""
    if v is not None and v[0] == "k" and isinstance(v[1], tuple) and v[1][0] == "entry":
        v = v[1][1]
    f = tm.form(v)
    if f is None:
        raise Unknown("a path")
    out, cur = [], []
    root = bool(f) and f[0] == "/"
    for x in f + ["/"]:
        if x == "/":
            c = tuple(cur)
            cur = []
            if c in ((), (".",)):
                continue
            if c == (".", "."):
                if out and out[-1] != "..":
                    out.pop()
                elif not root:
                    out.append("..")
                continue
            out.append(c)
        else:
            if not isinstance(x, str) and md.anytext(x):
                raise Unknown("a path component that may hold a separator")
            cur.append(x)
    return (("/",) if root else ()) + tuple(out)


def pathtext(ip, c):
    f = []
    for x in c:
        if x == "/":
            continue
        f += ["/"] if f or c[0] == "/" else []
        f += [".", "."] if x == ".." else list(x)
    return tm.unform(ip, f or ["."])


def miss(cx, e):
    k = f"disk: {e}"
    cx.ip.unmodelled[k] = cx.ip.unmodelled.get(k, 0) + 1


def exact(*names):
    def d(f):
        for n in names:
            old = md.M.get(n)

            def g(ip, cx, old=old):
                if not EXACT:
                    return old(ip, cx) if old else md.default(ip, cx)
                try:
                    return f(ip, cx)
                except Unknown as e:
                    miss(cx, e)
                    return md.default(ip, cx)
            md.M[n] = g
        return f
    return d


def pv(cx, i):
    v = cx.ip.deref(cx.st, cx.args[i])
    for _ in range(4):
        if v is not None and v[0] == "r":
            v = cx.ip.deref(cx.st, v)
    if v is not None and v[0] == "k" and isinstance(v[1], tuple) and v[1][0] == "entry":
        return v[1][1]
    return strval(cx, cx.args[i])


def joined(cx, a, b):
    f, g = tm.form(a), tm.form(b)
    if f is None or g is None:
        raise Unknown("a path")
    if g and g[0] == "/":
        return b
    if g and not isinstance(g[0], str) and md.anytext(g[0]):
        raise Unknown("a path component that may be absolute")
    return tm.unform(cx.ip, f + ([] if not f or f[-1] == "/" else ["/"]) + g)


@exact("std::path::PathBuf::push")
def p_push(ip, cx):
    md.store(cx, 0, joined(cx, pv(cx, 0), pv(cx, 1)))
    return ret(cx, UNIT)


@exact("std::path::Path::join", "std::path::PathBuf::join")
def p_join(ip, cx):
    return ret(cx, joined(cx, pv(cx, 0), pv(cx, 1)))


@exact("std::path::Path::try_exists", "std::path::Path::exists", "std::path::Path::is_dir", "std::path::Path::is_file", "std::fs::exists")
def p_exists(ip, cx):
    c, d = comps(pv(cx, 0)), disk(cx.st)
    dr, fl = ("dir", c) in d, any(x[0] in ("file", "sql") and x[1] == c for x in d)
    n = cx.np.split("::")[-1]
    r = K(int(dr if n == "is_dir" else fl if n == "is_file" else dr or fl))
    return ret(cx, ok(r) if n == "try_exists" or cx.np.startswith("std::fs") else r)


@exact("std::fs::create_dir_all", "std::fs::create_dir")
def fs_mkdir(ip, cx):
    c, d = comps(pv(cx, 0)), list(disk(cx.st))
    if any(x[0] == "file" and x[1] == c[:i] for x in d for i in range(1, len(c) + 1)):
        return ret(cx, err(IOERR))
    if cx.np.endswith("create_dir") and (("dir", c) in d or len(c) > 1 and ("dir", c[:-1]) not in d):
        return ret(cx, err(IOERR))
    for i in range(1, len(c) + 1):
        if ("dir", c[:i]) not in d:
            d.append(("dir", c[:i]))
    put(cx.st, d)
    return ret(cx, ok(UNIT))


@exact("std::fs::write")
def fs_write(ip, cx):
    c, d, v = comps(pv(cx, 0)), disk(cx.st), pv(cx, 1)
    if ("dir", c) in d or ("dir", c[:-1]) not in d or not c or c[-1] in ("..", "/"):
        return ret(cx, err(IOERR))
    if v is None:
        raise Unknown("what is written")
    put(cx.st, [x for x in d if not (x[0] == "file" and x[1] == c)] + [("file", c, v)])
    return ret(cx, ok(UNIT))


@exact("std::fs::read", "std::fs::read_to_string")
def fs_read(ip, cx):
    c, d = comps(pv(cx, 0)), disk(cx.st)
    hit = [x[2] for x in d if x[0] == "file" and x[1] == c]
    return ret(cx, ok(hit[0]) if hit else err(IOERR))


@exact("std::fs::remove_file")
def fs_rm(ip, cx):
    c, d = comps(pv(cx, 0)), disk(cx.st)
    if not any(x[0] in ("file", "sql") and x[1] == c for x in d):
        return ret(cx, err(IOERR))
    put(cx.st, [x for x in d if not (x[0] in ("file", "sql") and x[1] == c)])
    return ret(cx, ok(UNIT))


@exact("std::fs::rename")
def fs_mv(ip, cx):
    a, b, d = comps(pv(cx, 0)), comps(pv(cx, 1)), disk(cx.st)
    hit = [x[2] for x in d if x[0] == "file" and x[1] == a]
    if not hit or ("dir", b) in d or ("dir", b[:-1]) not in d:
        return ret(cx, err(IOERR))
    put(cx.st, [x for x in d if not (x[0] == "file" and x[1] in (a, b))] + [("file", b, hit[0])])
    return ret(cx, ok(UNIT))


@exact("std::fs::read_dir", "std::path::Path::read_dir")
def fs_dir(ip, cx):
    c, d = comps(pv(cx, 0)), disk(cx.st)
    if ("dir", c) not in d:
        return ret(cx, err(IOERR))
    e = [x for x in d if x[0] in ("file", "dir") and x[1][:-1] == c]
    if ip.hash_rev:
        e.reverse()
    return ret(cx, ok(("t", tuple(ok(("k", ("entry", pathtext(ip, x[1]), x[0]))) for x in e))))


@exact("std::fs::DirEntry::path")
def de_path(ip, cx):
    return ret(cx, pv(cx, 0))


def last(cx, v):
    c = comps(v)
    if not c or c[-1] in ("..", "/"):
        return None
    return tm.unform(cx.ip, list(c[-1]))


@exact("std::fs::DirEntry::file_name")
def de_name(ip, cx):
    return ret(cx, last(cx, pv(cx, 0)))


@exact("std::path::Path::file_name", "std::path::PathBuf::file_name")
def p_name(ip, cx):
    v = last(cx, pv(cx, 0))
    return ret(cx, some(v) if v is not None else NONE)


@exact("std::ffi::os_str::OsStr::to_str", "std::path::Path::to_str")
def os_str(ip, cx):
    return ret(cx, some(pv(cx, 0)))


@exact("std::ffi::os_str::OsString::into_string")
def os_string(ip, cx):
    return ret(cx, ok(pv(cx, 0)))


@exact("std::ffi::os_str::OsStr::to_string_lossy", "std::path::Path::to_string_lossy")
def os_lossy(ip, cx):
    return ret(cx, pv(cx, 0))


# ------------------------------------------------------------------ sled
@exact("sled::open", "sled::db::open", "sled::config::Config::open")
def sled_open(ip, cx):
    c = comps(pv(cx, 0))
    d = list(disk(cx.st))
    if not any(x[0] == "sled" and x[1] == c for x in d):
        put(cx.st, d + [("sled", c, K("__sled__default"), ())])
    return ret(cx, ok(("k", ("sled", c, K("__sled__default")))))


def handle(cx, i=0):
    v = cx.ip.deref(cx.st, cx.args[i])
    for _ in range(4):
        if v is not None and v[0] == "r":
            v = cx.ip.deref(cx.st, v)
    if v is None or v[0] != "k" or not isinstance(v[1], tuple) or v[1][0] != "sled":
        raise Unknown("a database handle")
    return v[1]


def tree(cx, h):
    for x in disk(cx.st):
        if x[:3] == h:
            return x
    raise Unknown("a tree")


def samekey(cx, a, b):
    if a == b:
        return True
    r = md.same(cx.ip, cx.st, a, b)
    if r is None:
        # decided for keys that differ: two texts written differently are different keys
        if tm.form(a) is None or tm.form(b) is None:
            raise Unknown(f"whether {a} is {b}")
        return False
    return r


def bytesof(cx, i):
    w = cx.ip.deref(cx.st, cx.args[i])
    for _ in range(4):
        if w is not None and w[0] == "r":
            w = cx.ip.deref(cx.st, w)
    if w == md.VEMPTY:
        return K("")
    if w is not None and w[0] == "t":
        # numbers and texts one after the other
        ps = [cx.ip.deref(cx.st, x) for x in w[1]]
        if any(x is not None and x[0] == "k" and isinstance(x[1], int) for x in ps):
            if not all(x is not None and (x[0] in ("k", "cat") or x[0] == "s" and md.sym(x) or x[0] == "a" and x[1].endswith("::Text")) for x in ps):
                raise Unknown("bytes")
            if all(x[0] == "k" and isinstance(x[1], int) and x[1] < 128 for x in ps):
                return K("".join(chr(x[1]) for x in ps))
            return ("t", tuple(ps))
    v = pv(cx, i)
    if v is None or v[0] == "c" or v[0] == "s" and not md.sym(v):
        raise Unknown("bytes")
    return v


@exact("sled::db::Db::open_tree", "sled::Db::open_tree")
def sled_tree(ip, cx):
    h, n = handle(cx), bytesof(cx, 1)
    d = disk(cx.st)
    for x in d:
        if x[0] == "sled" and x[1] == h[1] and samekey(cx, x[2], n):
            return ret(cx, ok(("k", x[:3])))
    put(cx.st, list(d) + [("sled", h[1], n, ())])
    return ret(cx, ok(("k", ("sled", h[1], n))))


def entry(cx, t, k):
    hit = [x for x in t[3] if samekey(cx, x[0], k)]
    return hit[0] if hit else None


@exact("sled::tree::Tree::get", "sled::Tree::get", "sled::tree::Tree::contains_key")
def sled_get(ip, cx):
    e = entry(cx, tree(cx, handle(cx)), bytesof(cx, 1))
    if cx.np.endswith("contains_key"):
        return ret(cx, ok(K(int(e is not None))))
    return ret(cx, ok(some(e[1]) if e else NONE))


@exact("sled::tree::Tree::insert", "sled::Tree::insert", "sled::tree::Tree::remove")
def sled_insert(ip, cx):
    t, k = tree(cx, handle(cx)), bytesof(cx, 1)
    e = entry(cx, t, k)
    es = tuple(x for x in t[3] if x is not e)
    if not cx.np.endswith("remove"):
        es += ((k, bytesof(cx, 2)),)
    put(cx.st, [x if x != t else t[:3] + (es,) for x in disk(cx.st)])
    return ret(cx, ok(some(e[1]) if e else NONE))


@exact("sled::tree::Tree::iter", "sled::Tree::iter")
def sled_iter(ip, cx):
    t = tree(cx, handle(cx))
    return ret(cx, ("t", tuple(ok(("t", (k, v))) for k, v in t[3])))


@exact("sled::tree::Tree::len")
def sled_len(ip, cx):
    return ret(cx, K(len(tree(cx, handle(cx))[3])))


@exact("sled::tree::Tree::flush", "sled::db::Db::flush")
def sled_flush(ip, cx):
    return ret(cx, ok(K(0)))


@exact("rusqlite::Connection::open", "rusqlite::Connection::open_in_memory")
def sql_open(ip, cx):
    """a database is a file in a directory that exists, or only in memory"""
    if cx.np.endswith("in_memory") or pv(cx, 0) == K(":memory:"):
        return ret(cx, ok(("k", ("sql", "memory"))))
    c, d = comps(pv(cx, 0)), list(disk(cx.st))
    if ("dir", c) in d or len(c) > 1 and ("dir", c[:-1]) not in d:
        return ret(cx, err(IOERR))
    if not any(x[:2] == ("sql", c) for x in d):
        d.append(("sql", c))
    put(cx.st, d)
    return ret(cx, ok(("k", ("sql", c))))
