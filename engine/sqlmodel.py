"""Assumed contract of the SQLite wrapper as used by the element caches.

The statement text (a literal of the source) is interpreted: which column each bound parameter is
compared with or inserted into. A row that is read holds the value the table's meaning gives to its
key columns (assumed: the file was written by this code); a row that is written must too (proved).
"""
import re

import z3

import ctypes_ as ct

from values import *  # noqa: F401,F403
from vc import VOID


def parse(sql):
    s = " ".join(sql.split())
    m = re.match(r"select (.+?) from (\w+) where (.*?);?$", s, re.I)
    if m:
        conds = {}
        for c in re.split(r"\band\b", m.group(3), flags=re.I):
            k = re.match(r"\s*`?(\w+)`?\s*=\s*\?(\d+)\s*$", c)
            if not k:
                raise Unsupported("sql condition " + c)
            conds[int(k.group(2))] = k.group(1).lower()
        return "select", m.group(2), conds, [x.strip(" `").lower() for x in m.group(1).split(",")]
    m = re.match(r"insert or (?:ignore|replace) into (\w+) \((.*?)\) values \((.*?)\);?$", s, re.I)
    if m:
        cols = [c.strip(" `").lower() for c in m.group(2).split(",")]
        ps = [p.strip() for p in m.group(3).split(",")]
        d = {}
        for c, p in zip(cols, ps):
            k = re.match(r"\?(\d+)$", p)
            if not k:
                raise Unsupported("sql value " + p)
            d[int(k.group(1))] = c
        if len(cols) != len(ps):
            raise Unsupported("sql columns")
        return "insert", m.group(1), d, None
    raise Unsupported("sql statement " + s[:60])


class Rows:
    """the rows of arbitrary tables: each selected expression is a function of the database and the columns fixed by
    the statement; an aggregate always yields one row"""

    def __init__(self, E):
        self.E = E

    def fn(self, what, args, res):
        Re = z3.RealSort()
        return self.E.uninterp(what, *([Re] * (len(args) + 1) + [res]))

    def val(self, db, table, expr, **where):
        ks = sorted(where)
        return self.fn("%s.%s[%s]" % (table, expr.lower(), ",".join(ks)), ks, z3.RealSort())(
            db, *[toreal(where[k]) for k in ks])

    def row(self, db, table, **where):
        ks = sorted(where)
        return self.fn("%s.row[%s]" % (table, ",".join(ks)), ks, z3.BoolSort())(
            db, *[toreal(where[k]) for k in ks])


def parse_select(sql):
    """select list from table where conjunction of column = parameter"""
    s = " ".join(sql.split())
    m = re.match(r"select (.+?) from `?(\w+)`? where (.*?);?$", s, re.I)
    if not m:
        raise Unsupported("sql statement " + s[:60])
    w = m.group(3).strip()
    conds, nxt = {}, 1
    for c in re.split(r"\band\b", w, flags=re.I):
        k = re.match(r"[\s(]*`?(\w+)`?\s*=\s*\?(\d*)[\s)]*$", c) or None
        if k:
            col, p = k.group(1), k.group(2)
        else:
            k = re.match(r"[\s(]*\?(\d*)\s*=\s*`?(\w+)`?[\s)]*$", c)
            if not k:
                raise Unsupported("sql condition " + c)
            col, p = k.group(2), k.group(1)
        p = int(p) if p else nxt
        nxt = max(nxt, p + 1)
        conds[p] = col.lower()
    return m.group(2).lower(), conds, [re.sub(r"[\s`]", "", x).lower() for x in m.group(1).split(",")]


class Sql:
    """tables: name -> (list of key columns, meaning(columns -> value))"""

    def __init__(self, E, tables, classname="sqlite::statement", rows=None):
        self.E, self.tables, self.rows = E, tables, rows
        c = E.contracts
        c[classname + "::set"] = self.set
        c[classname + "::prepare"] = self.noop
        c[classname + "::reset"] = self.reset
        c[classname + "::bind"] = self.bind
        c[classname + "::step"] = self.step
        c[classname + "::exec"] = self.exec
        c[classname + "::get"] = self.get
        c["sqlite::handle::handle"] = lambda E, st, A: Opaque("sqlite::handle")
        c[classname + "::statement"] = lambda E, st, A: Opaque("sqlite::statement")

    def noop(self, E, st, A):
        return VOID

    def set(self, E, st, A):
        v = A.val(0)
        st.mem["sql:text"] = E.strlit(v.s) if isinstance(v, StrLit) else v
        for i in range(1, 16):
            st.mem["sqlbd:%d" % i] = F
        return VOID

    def literal(self, v, st=None):
        """the text of a string value: a literal, or a choice between literals that the path decides"""
        if isinstance(v, StrLit):
            return v.s
        back = {c.get_id(): t for t, c in self.E.strlits.items()}
        if not isinstance(v, z3.ExprRef):
            return None
        if v.get_id() in back:
            return back[v.get_id()]
        if st is None:
            return None
        subs = []
        ps = list(st.pc) + [st.live()]
        while ps:
            p = ps.pop()
            if z3.is_and(p):
                ps += p.children()
            if z3.is_true(p) or z3.is_false(p):
                continue
            subs.append((p, T))
            if z3.is_not(p):
                subs.append((p.arg(0), F))
                if z3.is_or(p.arg(0)):
                    ps += [z3.Not(q) for q in p.arg(0).children()]
        if subs:
            w = z3.simplify(z3.substitute(v, *subs))
            if w.get_id() in back:
                return back[w.get_id()]
        seen, todo, cand = set(), [v], []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in back:
                cand.append(x)
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                todo += x.children()[1:]
        for x in cand:
            if self.E.quick_unsat(st, v != x):
                return back[x.get_id()]
        return None

    def reset(self, E, st, A):
        return VOID

    def exec(self, E, st, A):
        v = A.val(0)
        lit = self.literal(v)
        if lit is not None:
            t = lit.lower().strip()
            o = st.mem.get("sql:tx", F)
            if t.startswith("begin"):
                E.prove("transactions are not nested", Not(o), st)
                st.mem["sql:tx"] = ite(st.live(), T, o)
            if t.startswith("rollback"):    # refused, by an exception, when nothing is open
                st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), Not(o)))
                st.mem["sql:tx"] = ite(st.live(), F, o)
            elif t.startswith(("commit", "end")):
                E.prove("only an open transaction is ended", o, st)
                st.mem["sql:tx"] = ite(st.live(), F, o)
            if self.may_throw:
                st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), z3.Bool(fresh_name("sqlerr"))))
        return VOID

    may_throw = False

    def bind(self, E, st, A):
        w = rc(toint(A.val(0)))
        if w is None:
            raise Unsupported("bind position")
        v = A.val(1)
        if isinstance(v, StrLit):
            v = E.strlit(v.s)
        st.mem["sqlb:%d" % int(w)] = toreal(v)
        st.mem["sqlbd:%d" % int(w)] = T
        return VOID

    def text(self, st):
        t = st.mem.get("sql:text")
        t = self.literal(t, st)
        if t is None:
            raise Unsupported("sql text unknown here")
        return parse(t) if self.rows is None else parse_select(t)

    def columns(self, st, pos):
        out = {}
        for i, c in pos.items():
            v = st.mem.get("sqlb:%d" % i)
            if v is None:
                raise Unsupported("unbound sql parameter %d" % i)
            self.E.prove("sql parameter of column %s is bound" % c, st.mem["sqlbd:%d" % i], st)
            out[c] = v
        return out

    def step(self, E, st, A):
        if self.rows is not None:
            table, pos, res = self.text(st)
            cols = self.columns(st, pos)
            for i, x in enumerate(res):
                st.mem["sqlcol:%d" % i] = self.rows.val(st.mem["sql:db"], table, x, **cols)
            if all(re.match(r"(max|min|sum|count|avg|total)\(", x) for x in res):
                return T
            return self.rows.row(st.mem["sql:db"], table, **cols)
        kind, table, pos, res = self.text(st)
        if table not in self.tables:
            raise Unsupported("sql table " + table)
        keys, meaning = self.tables[table]
        cols = self.columns(st, pos)
        if kind == "insert":
            E.prove("row written to %s: all columns are given" % table,
                    z3.BoolVal(set(cols) == set(keys) | {"value"}), st)
            if set(cols) == set(keys) | {"value"}:
                E.prove("row written to %s holds the value of its key" % table,
                        meaning(cols) == toreal(cols["value"]), st)
            return F
        E.prove("query of %s fixes the whole key" % table, z3.BoolVal(set(cols) == set(keys)), st)
        if set(cols) == set(keys):
            st.mem["sqlrow"] = meaning(cols)
        else:
            st.mem["sqlrow"] = z3.Real(fresh_name("row"))
        return z3.Bool(fresh_name("step"))

    def get(self, E, st, A):
        i = rc(toint(A.val(0)))
        if self.rows is not None:
            v = st.mem.get("sqlcol:%d" % int(i))
            if v is None:
                raise Unsupported("column %s of this statement" % i)
            return z3.ToInt(v) if ct.is_int(A.f["ret"]) else v
        kind, table, pos, res = self.text(st)
        if kind != "select" or i != 0 or res[0] != "value":
            return z3.Real(fresh_name("col"))
        return st.mem["sqlrow"]
