"""SQL statements found in the source, evaluated over tables of symbolic values.

A statement is parsed (unknown syntax: Missing, the check cannot decide), its tables and columns are resolved, and it is
evaluated: INSERT with primary keys, SELECT with subqueries, LEFT JOIN ON true, WHERE … MATCH, GROUP BY, ORDER BY, LIMIT and
OFFSET, COUNT(*) OVER(), bm25 and snippet. Words of a text are opaque; a phrase matches a column that holds it."""
import re
from interp import K, S, SL, ok, err, NONE, some
import models as md
from models import m, ret, strval, dv, tmp, mark

EXACT = False           # rules about listings and search: the database is a value and well-formed statements succeed
SNIPPET = "whole"       # "whole" text around the match, or only a "part" of it, marked "..."
GROUP = "first"         # which row of a group stands for the others
NULL = ("k", ("null",))
SYNTAX = ("k", ("sql-error",))
I64 = 2 ** 63 - 1


class Wrong(Exception):
    """the database rejects the statement"""


class Unknown(Exception):
    """outside of the subset of SQL read here"""


# ------------------------------------------------------------------ reading
TOK = re.compile(r"""\s*(?:(--[^\n]*)|('(?:[^']|'')*')|("(?:[^"]|"")*")|(\?\d*)|(\d+(?:\.\d+)?)|([A-Za-z_]\w*)|(.))""", re.S)


def tokens(s):
    out, i = [], 0
    s = s.rstrip().rstrip(";").rstrip()
    while i < len(s):
        x = TOK.match(s, i)
        i = x.end()
        c, st, q, p, n, w, o = x.groups()
        if c is not None:
            continue
        if st is not None:
            out.append(("str", st[1:-1].replace("''", "'")))
        elif q is not None:
            out.append(("id", q[1:-1].replace('""', '"')))
        elif p is not None:
            out.append(("?", int(p[1:]) if p[1:] else None))
        elif n is not None:
            out.append(("num", float(n) if "." in n else int(n)))
        elif w is not None:
            out.append(("w", w))
        else:
            out.append(("o", o))
    return out


class P:
    def __init__(self, s):
        self.t, self.i, self.np = tokens(s), 0, 0

    def peek(self, *ws):
        if self.i >= len(self.t):
            return False
        k, v = self.t[self.i]
        return any((k == "w" and v.upper() == w) or (k == "o" and v == w) for w in ws)

    def eat(self, *ws):
        if self.peek(*ws):
            self.i += 1
            return self.t[self.i - 1][1].upper()
        return None

    def need(self, w):
        if not self.eat(w):
            raise Unknown(f"{w} expected at {self.t[self.i:self.i + 4]}")

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] in ("w", "id"):
            self.i += 1
            return self.t[self.i - 1][1].lower()
        raise Unknown(f"a name expected at {self.t[self.i:self.i + 4]}")

    def stmt(self):
        if self.eat("CREATE"):
            r = self.create()
        elif self.eat("INSERT"):
            r = self.insert()
        elif self.peek("SELECT"):
            r = self.select()
        else:
            raise Unknown(f"statement {self.t[:2]}")
        if self.i != len(self.t):
            raise Unknown(f"text after the statement: {self.t[self.i:self.i + 4]}")
        return r

    def create(self):
        virt = bool(self.eat("VIRTUAL"))
        self.need("TABLE")
        ine = False
        if self.eat("IF"):
            self.need("NOT"), self.need("EXISTS")
            ine = True
        n = self.name()
        fts = False
        if virt:
            self.need("USING")
            if self.name() != "fts5":
                raise Unknown("virtual table")
            fts = True
        self.need("(")
        cols, pk, un, opts = [], None, [], {}
        while True:
            c = self.name()
            if fts and self.eat("="):
                opts[c] = self.t[self.i][1]
                self.i += 1
            else:
                cols.append(c)
                while not self.peek(",", ")"):
                    w = self.name()
                    if w == "primary":
                        self.need("KEY")
                        pk = c
                    elif w == "unindexed":
                        un.append(c)
                    elif w not in ("text", "blob", "integer", "not", "null"):
                        raise Unknown(f"column constraint {w}")
            if not self.eat(","):
                break
        self.need(")")
        if fts and opts.get("tokenize") != "trigram" or set(opts) - {"tokenize"}:
            raise Unknown(f"options of the text index {opts}")
        return ("create", n, tuple(cols), pk, fts, tuple(un), ine)

    def insert(self):
        how = "fail"
        if self.eat("OR"):
            how = self.name()
        self.need("INTO")
        t = self.name()
        cols = None
        if self.eat("("):
            cols = [self.name()]
            while self.eat(","):
                cols.append(self.name())
            self.need(")")
        self.need("VALUES")
        self.need("(")
        vs = [self.expr()]
        while self.eat(","):
            vs.append(self.expr())
        self.need(")")
        return ("insert", t, cols, vs, how)

    def select(self):
        self.need("SELECT")
        if self.eat("DISTINCT"):
            raise Unknown("DISTINCT")
        items = [self.item()]
        while self.eat(","):
            items.append(self.item())
        self.need("FROM")
        src = self.source()
        joins = []
        while self.peek("LEFT", "JOIN", "INNER", "CROSS"):
            left = bool(self.eat("LEFT"))
            self.eat("OUTER") or self.eat("INNER") or self.eat("CROSS")
            self.need("JOIN")
            s = self.source()
            on = self.expr() if self.eat("ON") else ("lit", K(1))
            joins.append((left, s, on))
        where = self.expr() if self.eat("WHERE") else None
        group = order = None
        if self.eat("GROUP"):
            self.need("BY")
            group = [self.expr()]
            while self.eat(","):
                group.append(self.expr())
        if self.eat("ORDER"):
            self.need("BY")
            order = []
            while True:
                e = self.expr()
                order.append((e, self.eat("ASC", "DESC") == "DESC"))
                if not self.eat(","):
                    break
        lim = off = None
        if self.eat("LIMIT"):
            lim = self.expr()
            if self.eat("OFFSET"):
                off = self.expr()
            elif self.eat(","):
                off, lim = lim, self.expr()
        return ("select", items, src, joins, where, group, order, lim, off)

    def item(self):
        if self.eat("*"):
            return ("*", None, None)
        if self.i + 2 < len(self.t) and self.t[self.i][0] in ("w", "id") and self.t[self.i + 1:self.i + 3] == [("o", "."), ("o", "*")]:
            n = self.name()
            self.i += 2
            return ("*", n, None)
        a = self.i
        e = self.expr()
        text = " ".join(str(x[1]) for x in self.t[a:self.i])
        if self.eat("AS"):
            return ("e", e, self.name())
        if self.i < len(self.t) and self.t[self.i][0] in ("w", "id") and not self.peek("FROM"):
            return ("e", e, self.name())
        return ("e", e, e[2] if e[0] == "col" else text.lower())

    def source(self):
        if self.eat("("):
            s = self.select()
            self.need(")")
        else:
            s = ("table", self.name())
        al = s[1] if s[0] == "table" else None
        if self.eat("AS"):
            al = self.name()
        elif self.i < len(self.t) and self.t[self.i][0] in ("w", "id") and not self.peek("LEFT", "JOIN", "INNER", "CROSS", "ON", "WHERE", "GROUP", "ORDER", "LIMIT"):
            al = self.name()
        return (s, al)

    def expr(self):
        a = self.cmp()
        while self.peek("AND", "OR"):
            o = self.eat("AND", "OR")
            a = (o.lower(), a, self.cmp())
            if o == "OR" or a[1][0] == "or":
                raise Unknown("OR")
        return a

    def cmp(self):
        a = self.prim()
        if self.eat("="):
            self.eat("=")
            return ("=", a, self.prim())
        if self.eat("MATCH"):
            return ("match", a, self.prim())
        return a

    def prim(self):
        if self.i >= len(self.t):
            raise Unknown("end of statement")
        k, v = self.t[self.i]
        if k == "?":
            self.i += 1
            self.np = v if v is not None else self.np + 1
            return ("?", self.np)
        if k in ("str", "num"):
            self.i += 1
            return ("lit", K(v) if not isinstance(v, float) else S("!" + str(v)))
        if (k, v) == ("o", "-"):
            self.i += 1
            x = self.prim()
            if x[0] == "lit" and isinstance(x[1][1], int):
                return ("lit", K(-x[1][1]))
            raise Unknown("negation")
        if (k, v) == ("o", "("):
            self.i += 1
            if self.peek("SELECT"):
                r = ("sub", self.select())
            else:
                r = self.expr()
            self.need(")")
            return r
        if k == "w" and v.upper() in ("TRUE", "FALSE"):
            self.i += 1
            return ("lit", K(int(v.upper() == "TRUE")))
        if k == "w" and v.upper() == "NULL":
            self.i += 1
            return ("lit", NULL)
        n = self.name()
        if self.eat("."):
            return ("col", n, self.name())
        if self.eat("("):
            args = []
            if self.eat("*"):
                args = ["*"]
            elif not self.peek(")"):
                args = [self.expr()]
                while self.eat(","):
                    args.append(self.expr())
            self.need(")")
            over = False
            if self.eat("OVER"):
                self.need("("), self.need(")")
                over = True
            return ("fn", n, args, over)
        return ("col", None, n)


_PARSED = {}


def read(q):
    if q not in _PARSED:
        try:
            p = P(q)
            _PARSED[q] = (p.stmt(), max([v or 0 for k, v in p.t if k == "?"] + [p.np]))
        except Unknown as e:
            _PARSED[q] = e
    x = _PARSED[q]
    if isinstance(x, Unknown):
        raise x
    return x


# ------------------------------------------------------------------ full text queries
FQ = re.compile(r"\s*(?:([{}():*^+-])|\"((?:[^\"]|\"\")*)\"|([^\s{}():*^+\"-]+)|(.))", re.S)


def fts_parse(s):
    """query text -> nested ("and"|"or"|"not", a, b) | ("in", cols, phrase)"""
    toks, i = [], 0
    s = s.strip()
    while i < len(s):
        x = FQ.match(s, i)
        if x is None:
            break
        i = x.end()
        if x.group(4) is not None:
            raise Wrong("syntax of the search expression")
        if x.group(1):
            toks.append(("o", x.group(1)))
        elif x.group(2) is not None:
            toks.append(("p", x.group(2)))
        else:
            w = x.group(3)
            if re.search(r"[\x00-\x7f]", w) and re.search(r"[^A-Za-z0-9_\x80-\U0010ffff]", w):
                raise Wrong("syntax of the search expression")
            toks.append(("k" if w in ("AND", "OR", "NOT", "NEAR") else "w", w))
    if not toks:
        raise Wrong("empty search expression")
    pos = [0]

    def pk(k, v=None):
        return pos[0] < len(toks) and toks[pos[0]][0] in k and (v is None or toks[pos[0]][1] == v)

    def nx():
        pos[0] += 1
        return toks[pos[0] - 1]

    def o_():
        a = a_()
        while pk("k", "OR"):
            nx()
            a = ("or", a, a_())
        return a

    def a_():
        a = n_()
        while pk("k", "AND"):
            nx()
            a = ("and", a, n_())
        return a

    def n_():
        a = imp()
        while pk("k", "NOT"):
            nx()
            a = ("not", a, imp())
        return a

    def imp():
        a = unit(None)
        while pk("pw") or pk("o", "{"):
            a = ("and", a, unit(None))
        return a

    def unit(cols):
        if pk("o", "{"):
            nx()
            cs = []
            while pk("wp"):
                cs.append(nx()[1].lower())
            if not pk("o", "}"):
                raise Wrong("columns of the search expression")
            nx()
            if not pk("o", ":"):
                raise Wrong("columns of the search expression")
            nx()
            return unit(tuple(cs))
        if pk("o", "("):
            nx()
            a = o_()
            if not pk("o", ")"):
                raise Wrong("parentheses of the search expression")
            nx()
            return within(a, cols)
        if not pk("wp"):
            raise Wrong("syntax of the search expression")
        w = nx()
        if pk("o", ":"):
            nx()
            return unit((w[1].lower(),))
        return ("in", cols, w[1])

    def within(a, cols):
        if cols is None:
            return a
        if a[0] == "in":
            return ("in", cols if a[1] is None else tuple(c for c in a[1] if c in cols), a[2])
        return (a[0], within(a[1], cols), within(a[2], cols))

    a = o_()
    if pos[0] != len(toks):
        raise Wrong("syntax of the search expression")
    return a


def fts_cols(a):
    return set(a[1] or ()) if a[0] == "in" else fts_cols(a[1]) | fts_cols(a[2])


def fts_match(a, row):
    """row: {column: encoded text}"""
    if a[0] == "in":
        return any(a[2].lower() in row[c].lower() for c in (a[1] or row) if c in row)
    x, y = fts_match(a[1], row), fts_match(a[2], row)
    return (x and y) if a[0] == "and" else (x or y) if a[0] == "or" else x and not y


def phrases(a):
    if a[0] == "in":
        return [a]
    return phrases(a[1]) + ([] if a[0] == "not" else phrases(a[2]))


# ------------------------------------------------------------------ evaluation
# database: ((name, cols, pk, fts, unindexed, ((rowid, values), …)), …)
class Ev:
    def __init__(self, ip, st, db, params):
        self.ip, self.st, self.db, self.params = ip, st, db, params

    def table(self, n):
        for t in self.db:
            if t[0] == n:
                return t
        raise Wrong(f"no such table {n}")

    def param(self, i):
        if i > len(self.params):
            raise Wrong("parameter count")
        return self.params[i - 1]

    def eq(self, a, b):
        if a == NULL or b == NULL:
            return a == b
        if a == b:
            return True
        r = md.same(self.ip, self.st, a, b)
        if r is None:
            raise Unknown(f"whether {a} = {b}")
        return r

    # a row in flight: (list of (alias, column, value), context)
    def select(self, q):
        _, items, src, joins, where, group, order, lim, off = q
        cols, rows = self.source(src)
        for left, s, on in joins:
            c2, r2 = self.source(s)
            out = []
            for v, cx in rows:
                hits = [(v + w, dict(cx, **dx)) for w, dx in r2 if self.truth(on, cols + c2, v + w, dict(cx, **dx))]
                out += hits or ([(v + (NULL,) * len(c2), cx)] if left else [])
            cols, rows = cols + c2, out
        if where is not None:
            rows = [(v, cx2) for v, cx in rows for cx2 in [dict(cx)] if self.truth(where, cols, v, cx2)]
        if group is not None:
            gs = []
            for v, cx in rows:
                key = [self.value(e, cols, v, cx, None) for e in group]
                for g in gs:
                    if all(self.eq(a, b) for a, b in zip(g[0], key)):
                        g[1].append((v, cx))
                        break
                else:
                    gs.append((key, [(v, cx)]))
            if GROUP == "last":
                gs.reverse()
            rows = [g[1][0 if GROUP == "first" else -1] for g in gs]
        n = len(rows)
        names, out = [], []
        for it in items:
            if it[0] == "*":
                hit = [(al, c) for al, c in cols if it[1] in (None, al)]
                if not hit:
                    raise Wrong(f"no columns {it[1]}.*")
                names += [c for _, c in hit]
            else:
                names.append(it[2])
        for v, cx in rows:
            o = []
            for it in items:
                if it[0] == "*":
                    o += [x for (al, c), x in zip(cols, v) if it[1] in (None, al)]
                else:
                    o.append(self.value(it[1], cols, v, cx, n))
            out.append((tuple(o), cx, v))
        if order is not None:
            def key(r):
                ks = []
                for e, desc in order:
                    x = None
                    if e[0] == "col" and e[1] is None and e[2] in names:
                        x = r[0][names.index(e[2])]
                    else:
                        x = self.value(e, cols, r[2], r[1], n)
                    y = self.rank(x)
                    ks.append(-y if desc else y)
                return ks
            out.sort(key=key)
        if not out and order is not None:       # names are checked even without rows
            for e, _ in order:
                if not (e[0] == "col" and e[1] is None and e[2] in names):
                    self.column(e, cols)
        a = self.int(off, 0) if off is not None else 0
        b = self.int(lim, -1) if lim is not None else -1
        out = out[a:] if b < 0 else out[a:a + b]
        return [(None, x) for x in names], [(o, {}) for o, cx, v in out]

    def rank(self, x):
        if x == NULL:
            return -10 ** 9
        if x[0] == "s" and len(x[1]) == 1 and next(iter(x[1])).startswith("rank:"):
            return int(next(iter(x[1]))[5:])
        if x[0] == "k" and isinstance(x[1], int):
            return x[1]
        raise Unknown(f"order by {x}")

    def int(self, e, d):
        v = self.value(e, [], (), {}, None)
        if v[0] == "k" and isinstance(v[1], str) and re.fullmatch(r"-?\d+", v[1]):
            v = K(int(v[1]))
        if v[0] != "k" or not isinstance(v[1], int):
            raise Unknown(f"a number of rows {v}")
        if v[1] > I64:
            raise Wrong("datatype mismatch")
        return v[1] if v[1] >= 0 or e is None else (v[1] if d < 0 else 0)

    def source(self, s):
        q, al = s
        if q[0] == "select":
            cols, rows = self.select(q)
            return [(al, c) for _, c in cols], rows
        t = self.table(q[1])
        return [(al, c) for c in t[1]], [(vals, {"row:" + t[0]: (t, rid, vals)}) for rid, vals in t[5]]

    def column(self, e, cols):
        hit = [i for i, (al, c) in enumerate(cols) if c == e[2] and e[1] in (None, al)]
        if not hit:
            raise Wrong(f"no such column {e[2]}")
        if len(hit) > 1:
            raise Wrong(f"ambiguous column {e[2]}")
        return hit[0]

    def value(self, e, cols, v, cx, n):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "?":
            return self.param(e[1])
        if k == "col":
            if e[2] == "rowid":
                r = [x for y, x in cx.items() if y.startswith("row:")]
                if len(r) == 1:
                    return K(r[0][1])
            return v[self.column(e, cols)]
        if k == "sub":
            c, rows = self.select(e[1])
            return rows[0][0][0] if rows else NULL
        if k == "fn":
            if e[1] == "count" and e[2] == ["*"] and e[3]:
                if n is None:
                    raise Wrong("misuse of a window function")
                return K(n)
            if e[1] in ("bm25", "snippet") and e[2] and e[2][0][0] == "col":
                t = cx.get("row:" + e[2][0][2])
                if t is None or "query:" + t[0][0] not in cx:
                    raise Wrong("unable to use function in the requested context")
                if e[1] == "bm25":
                    return SL({"rank:%d" % t[1]})
                a = [self.value(x, cols, v, cx, n) for x in e[2][1:]]
                if len(a) != 5:
                    raise Wrong("wrong number of arguments to snippet")
                return self.snippet(t, cx["query:" + t[0][0]], a)
            raise Unknown(f"function {e[1]}")
        if k in ("=", "and", "match"):
            return K(int(self.truth(e, cols, v, cx)))
        raise Unknown(f"expression {k}")

    def texts(self, t, vals):
        from strmodels import Text
        tx = Text()
        enc = {}
        for c, x in zip(t[1], vals):
            if x == NULL:
                continue
            s = tx.enc(x) if c not in t[4] else ""
            if s is None:
                raise Unknown(f"the text {x}")
            enc[c] = s
        return tx, enc

    def truth(self, e, cols, v, cx):
        if e[0] == "and":
            return self.truth(e[1], cols, v, cx) and self.truth(e[2], cols, v, cx)
        if e[0] == "=":
            a, b = self.value(e[1], cols, v, cx, None), self.value(e[2], cols, v, cx, None)
            return a != NULL and b != NULL and self.eq(a, b)
        if e[0] == "match":
            if e[1][0] != "col":
                raise Unknown("MATCH")
            t = cx.get("row:" + e[1][2])
            if t is None or not t[0][3]:
                raise Wrong("unable to use function MATCH in the requested context")
            tx, enc = self.texts(t[0], t[2])
            q = tx.enc(self.value(e[2], cols, v, cx, None))
            if q is None:
                raise Unknown("the search expression")
            a = fts_parse(q)
            if not fts_cols(a) <= set(t[0][1]):
                raise Wrong(f"no such column {fts_cols(a)}")
            cx["query:" + t[0][0]] = (tx, a)
            return fts_match(a, {c: x for c, x in enc.items() if c not in t[0][4]})
        x = self.value(e, cols, v, cx, None)
        if x == NULL:
            return False
        if x[0] != "k":
            raise Unknown("a condition")
        return x[1] not in (0, "")

    def snippet(self, t, q, a):
        tx, enc = self.texts(t[0], t[2])
        w = self.ip
        consts = [x[1] if x[0] == "k" else None for x in a]
        col, pre, post, dots, size = consts
        if not all(isinstance(x, str) for x in (pre, post, dots)) or not isinstance(size, int):
            raise Unknown("arguments of snippet")
        names = [c for c in t[0][1] if c not in t[0][4]] if col < 0 else [t[0][1][col]]
        # the phrases were numbered with other codes: go through symbols
        for _, cols, ph in [x for x in phrases(q[1])]:
            phv = q[0].dec(w, ph)
            p = tx.enc(phv)
            for c in names:
                if (cols is None or c in cols) and p and p.lower() in enc[c].lower():
                    s = enc[c]
                    i = s.lower().index(p.lower())
                    l, m_, r = s[:i], s[i:i + len(p)], s[i + len(p):]
                    if SNIPPET == "part":
                        l = dots + l[1:] if len(l) > 1 else l
                        r = r[:-1] + dots if len(r) > 1 else r
                    return tx.dec(w, l + pre + m_ + post + r)
        return tx.dec(w, enc[names[0]])


# ------------------------------------------------------------------ models
def getdb(st):
    v = st.get("DB", 0) if "DB" in st.fr else ("k", ())
    if v is None or v[0] != "k" or not isinstance(v[1], tuple):
        return None
    return v[1]


def setdb(st, db):
    st.fr["DB"] = {0: ("k", db)}


def params(ip, st, v):
    """list of values, or None"""
    v = ip.deref(st, v)
    if v is not None and v[0] == "a" and len(v[2]) == 1 and v[2][0][1] == ():
        return []
    if v is None or v[0] != "t":
        return None
    out = []
    for x in v[1]:
        x = ip.deref(st, x)
        for _ in range(3):
            if x is not None and x[0] == "r":
                x = ip.deref(st, x)
        if x is None:
            return None
        if x[0] == "a" and x[1].endswith("option::Option") and len(x[2]) == 1:
            x = x[2][0][1][0] if x[2][0][1] else NULL
        out.append(x)
    return out


def run(ip, st, q, ps):
    """-> (new database or None, columns, rows); Wrong / Unknown"""
    if q is None or q[0] != "k" or not isinstance(q[1], str):
        raise Unknown("the text of the statement")
    s, n = read(q[1])
    if ps is None:
        raise Unknown("the parameters of the statement")
    if len(ps) != n:
        raise Wrong(f"{n} parameters expected, {len(ps)} given")
    if any(p[0] == "k" and isinstance(p[1], int) and p[1] > I64 for p in ps):
        raise Wrong("a number too large for the database")
    db = getdb(st)
    if db is None:
        raise Unknown("the database")
    ev = Ev(ip, st, db, ps)
    if s[0] == "create":
        if any(t[0] == s[1] for t in db):
            if not s[6]:
                raise Wrong("table exists")
            return db, None, None
        return db + ((s[1], s[2], s[3], s[4], s[5], ()),), None, None
    if s[0] == "insert":
        t = ev.table(s[1])
        cols = s[2] or list(t[1])
        if len(cols) != len(s[3]) or set(cols) - set(t[1]) - {"rowid"}:
            raise Wrong("columns of the insertion")
        vals = {c: ev.value(e, [], (), {}, None) for c, e in zip(cols, s[3])}
        rid = vals.pop("rowid", NULL)
        row = tuple(vals.get(c, NULL) for c in t[1])
        clash = [r for r in t[5] if (rid != NULL and rid == K(r[0])) or (t[2] is not None and ev.eq(r[1][t[1].index(t[2])], row[t[1].index(t[2])]))]
        rows = t[5]
        if clash:
            if s[4] == "ignore":
                return db, None, None
            if s[4] != "replace":
                raise Wrong("constraint failed")
            rows = tuple(r for r in rows if r not in clash)
        i = rid[1] if rid != NULL else 1 + max([r[0] for r in t[5]] + [0])
        nt = t[:5] + (tuple(sorted(rows + ((i, row),), key=lambda r: r[0])),)
        return tuple(nt if x is t else x for x in db), None, None
    c, rows = ev.select(s)
    return None, c, rows


def unknown(cx, e):
    k = f"SQL: {e}"
    cx.ip.unmodelled[k] = cx.ip.unmodelled.get(k, 0) + 1


def exact_execute(ip, cx):
    try:
        db, _, rows = run(ip, cx.st, strval(cx, cx.args[1]), params(ip, cx.st, cx.args[2]))
    except Wrong as e:
        return [(cx.st, err(S("!sql-error")))]
    except Unknown as e:
        unknown(cx, e)
        cx.st.fr["DB"] = {0: SL({"~sql"})}
        return [(cx.st, ok(S("!rows"))), (cx.st.copy(), err(S("!sql-error")))]
    if db is None:
        return [(cx.st, err(S("!sql-error")))]
    setdb(cx.st, db)
    return ret(cx, ok(S("!rows")))


@m("rusqlite::Connection::prepare", "rusqlite::Connection::prepare_cached")
def prepare(ip, cx):
    q = strval(cx, cx.args[1])
    if not EXACT:
        return md.default(ip, cx)
    try:
        if q is None or q[0] != "k":
            raise Unknown("the text of a statement")
        read(q[1])
    except Unknown as e:
        unknown(cx, e)
        return [(cx.st, ok(SL({"~sql"}))), (cx.st.copy(), err(S("!sql-error")))]
    return ret(cx, ok(("k", ("stmt", q[1]))))


@m("rusqlite::statement::Statement::query_map", "rusqlite::Statement::query_map")
def query_map(ip, cx):
    s = ip.deref(cx.st, cx.args[0])
    if not EXACT or s is None or s[0] != "k" or not isinstance(s[1], tuple) or s[1][0] != "stmt":
        return md.default(ip, cx)
    f = ip.deref(cx.st, cx.args[2])
    ps = params(ip, cx.st, cx.args[1])
    try:
        _, cols, rows = run(ip, cx.st, K(s[1][1]), ps)
    except Wrong as e:
        if "parameters expected" in str(e) or "too large" in str(e) or "no such" in str(e) and "column {" not in str(e):
            return ret(cx, err(S("!sql-error")))
        return ret(cx, ok(("t", (err(S("!sql-error")),))))          # found when the first row is asked for
    except Unknown as e:
        unknown(cx, e)
        return [(cx.st, ok(SL({"~sql"}))), (cx.st.copy(), err(S("!sql-error")))]
    names = tuple(c for _, c in cols)
    elems = [tmp(cx, "row%d" % i, ("t", (("k", names),) + tuple(v))) for i, (v, _) in enumerate(rows)]
    done, cur = md.each(cx, cx.st, elems, f, lambda st, acc, e, r: [(st, md.app(ip, acc, r), False)])
    return [(st, ok(acc)) for st, acc in cur]


@m("rusqlite::row::Row::get", "rusqlite::Row::get", "rusqlite::row::Row::get_unwrap")
def row_get(ip, cx):
    row, i = dv(cx, 0), strval(cx, cx.args[1])
    if not EXACT or row is None or row[0] != "t" or not row[1] or row[1][0][0] != "k" or i is None or i[0] != "k":
        return md.default(ip, cx)
    names = row[1][0][1]
    j = i[1] if isinstance(i[1], int) else names.index(i[1].lower()) if i[1].lower() in names else -1
    if not 0 <= j < len(names):
        return ret(cx, err(S("!sql-error")))
    v = row[1][1 + j]
    t = cx.dest_ty
    t = t["a"][0] if t and t.get("k") == "adt" and t["p"].endswith("Result") and t.get("a") else None
    if t is None:
        return ret(cx, ok(v))
    if t.get("k") == "adt" and t["p"].endswith("option::Option"):
        if v == NULL:
            return ret(cx, ok(NONE))
        return ret(cx, ok(some(v)) if fits(t["a"][0], v) else err(S("!sql-error")))
    return ret(cx, ok(v) if v != NULL and fits(t, v) else err(S("!sql-error")))


def fits(t, v):
    """does a column value convert to the type asked for"""
    text = v[0] == "cat" or v[0] == "k" and isinstance(v[1], str) or v[0] == "s" and not any(x.startswith("rank:") for x in v[1])
    rank = v[0] == "s" and not text
    ty = t.get("s", "")
    if ty.endswith("String"):
        return text
    return not text and (not rank or ty in ("f32", "f64"))


# ------------------------------------------------------------------ arithmetic on constants
def _num(op, kind):
    def f(ip, cx):
        a, b = dv(cx, 0), dv(cx, 1)
        t = cx.dest_ty or {}
        if kind in ("checked", "overflowing") and t.get("a"):
            t = t["a"][0]
        from interp import WIDTH
        w = WIDTH.get(str(t.get("s", "")).strip("()").split(",")[0])
        if w is None or any(x is None or x[0] != "k" or not isinstance(x[1], int) for x in (a, b)):
            return md.default(ip, cx)
        x, y = a[1], b[1]
        if op in ("div", "rem") and y == 0:
            if kind == "checked":
                return ret(cx, NONE)
            return md.default(ip, cx)
        n = {"add": x + y, "sub": x - y, "mul": x * y, "pow": x ** y if y < 128 else w, "div": x // (y or 1), "rem": x % (y or 1)}[op]
        fits_ = 0 <= n < w
        if kind == "saturating":
            return ret(cx, K(min(max(n, 0), w - 1)))
        if kind == "wrapping":
            return ret(cx, K(n % w))
        if kind == "checked":
            return ret(cx, some(K(n)) if fits_ else NONE)
        return ret(cx, ("t", (K(n % w), K(int(not fits_)))))
    return f


for _k in ("saturating", "wrapping", "checked", "overflowing"):
    for _o in ("add", "sub", "mul", "pow", "div", "rem"):
        m(f"core::num::{_k}_{_o}")(_num(_o, _k))


@m("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max", "core::cmp::Ord::clamp")
def ord_pick(ip, cx):
    vs = [dv(cx, i) for i in range(len(cx.args))]
    if any(x is None or x[0] != "k" or not isinstance(x[1], int) for x in vs):
        return md.default(ip, cx)
    x = [v[1] for v in vs]
    if cx.np.endswith("clamp"):
        return ret(cx, K(min(max(x[0], x[1]), x[2])))
    return ret(cx, K(max(x) if cx.np.endswith("max") else min(x)))


@m("core::f32::abs", "core::f64::abs")
def f_abs(ip, cx):
    return ret(cx, mark(ip.labels(cx.args[0], cx.st), "abs"))
