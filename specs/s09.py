"""The SQLite wrapper: a statement steps through exactly the rows of its query, the range-based loop visits every row
once, errors always surface, and the connection's busy handler always belongs to the living handle."""
import z3

from driver import task
from vc import VOID
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s09.cpp", "srcs": [], "n": (60, 1500), "flags": ["-lsqlite3", "-pthread"]}
RULE = "random tables, values and operation sequences against a reference state machine; distinct by content"
ASSUME = ["the C functions of SQLite do what their documentation says"]
TU = "tu:tu/sqlite.cpp"
S = "sqlite::statement"
H = "sqlite::handle"
DONE, ROW, MISUSE, OK = 101, 100, 21, 0
STATIC, TRANSIENT = 0, -1


def api(E, failing=True):
    """contracts of the C interface over a ghost cursor"""
    def step(E, st, A):
        p = A.val(0)
        E.prove("steps its own statement", T if p == E.raw else F, st)
        pos, n = st.mem["sq:pos"], st.mem["sq:n"]
        r = E.fresh("int", "rc") if failing else None
        nat = z3.If(pos < n, z3.IntVal(ROW), z3.IntVal(DONE))
        if failing:
            E.assume(Or(r == nat, And(r > 0, r != ROW, r != DONE)), st)
        else:
            r = nat
        st.mem["sq:pos"] = z3.If(r == ROW, pos + 1, pos)
        st.mem["sq:steps"] = st.mem["sq:steps"] + 1
        st.mem["sq:rc"] = r
        return r

    def simple(name, n):
        def h(E, st, A):
            r = E.fresh("int", name)
            E.assume(r >= 0, st)
            st.mem["sq:call"] = (name, [A.val(i) for i in range(n)])
            st.mem["sq:rc"] = r
            return r
        return h

    def prepare(E, st, A):
        r = E.fresh("int", "prepared")
        E.assume(r >= 0, st)
        sql = A.val(1)
        n = A.val(2)
        out = A.val(3)
        E.write(st, out, E.raw)
        st.mem["sq:call"] = ("prepare", [A.val(0), sql, n])
        st.mem["sq:rc"] = r
        return r
    c = E.contracts
    c["sqlite3_step"] = step
    c["sqlite3_prepare_v2"] = prepare
    c["sqlite3_prepare_v3"] = prepare
    for n, k in (("sqlite3_reset", 1), ("sqlite3_exec", 2), ("sqlite3_bind_text", 5), ("sqlite3_bind_double", 3),
                 ("sqlite3_bind_int", 3), ("sqlite3_bind_text64", 5)):
        c[n] = simple(n, k)
    E.busy = []

    def busy(E, st, A):
        r = E.fresh("int", "rc")
        E.assume(r >= 0, st)
        E.busy.append((And(st.live(), *st.pc), [A.val(i) for i in range(3)]))
        st.mem["sq:rc"] = r
        return r
    c["sqlite3_busy_handler"] = busy
    c["sqlite3_errstr"] = lambda E, st, A: E.fresh("std::basic_string<char>", "errstr")
    c["sqlite3_errmsg"] = lambda E, st, A: E.fresh("std::basic_string<char>", "errmsg")

    def reset(E, st, A):
        E.write(st, A.this(), A.val(0))
        return VOID
    c["std::unique_ptr::reset"] = reset


def stmt(E, failing=True):
    st = E.new_state()
    E.raw = E.alloc(st, Opaque("sqlite3_stmt"), "raw")
    E.db = E.alloc(st, Opaque("sqlite3"), "db")
    f = {}
    for x in E.P.fields(S):
        if x["type"] == "sqlite3 *":
            f[x["name"]] = E.db
        elif "unique_ptr" in x["type"]:
            f[x["name"]] = E.raw
        else:
            f[x["name"]] = E.fresh(x["type"], x["name"])
    lv = E.alloc(st, Rec(S, f), "stmt")
    st.mem["sq:pos"], st.mem["sq:n"], st.mem["sq:steps"] = z3.Int("pos"), z3.Int("n"), z3.IntVal(0)
    st.mem["sq:call"] = None
    st.mem["sq:rc"] = z3.IntVal(0)
    E.facts.append(And(z3.Int("pos") >= 0, z3.Int("pos") <= z3.Int("n")))
    api(E, failing)
    return st, lv


def flags(E, s, lv):
    v = E.read(s, lv)
    b = [x["name"] for x in E.P.fields(S) if x["type"] == "bool"]
    p = [n for n in b if "prep" in n]
    w = [n for n in b if n not in p]
    if len(p) != 1 or len(w) != 1:
        raise Unsupported("flags of the statement")
    return v.f[p[0]], v.f[w[0]]


def sql(E, s, lv):
    return E.read(s, lv).f[[x["name"] for x in E.P.fields(S) if "string" in x["type"]][0]]


@task("stepping", [TU])
def t_step(E):
    st, lv = stmt(E)
    prep, valid = flags(E, st, lv)
    pos, n = st.mem["sq:pos"], st.mem["sq:n"]
    s = st.copy()
    r = E.run(s, S + "::step", lv)
    x, rc = s.mem["$exc"], s.mem["sq:rc"]
    _, valid2 = flags(E, s, lv)
    went = And(prep, valid)
    E.prove("an unprepared or finished statement is refused and not stepped",
            Implies(Not(went), And(x, s.mem["sq:steps"] == 0)))
    E.prove("otherwise exactly one step is made", Implies(went, s.mem["sq:steps"] == 1))
    E.prove("throws on every SQLite error", Implies(went, x == And(rc != ROW, rc != DONE)))
    E.prove("true exactly if there is a row", Implies(Not(x), r == (pos < n)))
    E.prove("the statement stays usable exactly after a row", Implies(went, valid2 == (rc == ROW)))
    E.prove("stepping does not change whether it is prepared", flags(E, s, lv)[0] == prep)
    E.prove("stepping leaves the query alone", sql(E, s, lv) == sql(E, st, lv))
    E.cover("a row", And(Not(x), r))
    E.cover("the end", And(Not(x), Not(r)))
    E.cover("an error", And(went, x))


@task("preparing, setting, resetting", [TU])
def t_prepare(E):
    st, lv = stmt(E)
    prep, valid = flags(E, st, lv)
    q = E.fresh("std::basic_string<char>", "q")
    s = st.copy()
    E.run(s, S + "::set", lv, [q], ptypes=["basic_string<"])
    E.prove("set stores the query", sql(E, s, lv) == q)
    E.prove("after set the statement has to be prepared again", Not(flags(E, s, lv)[0]))
    E.prove("set does not throw", Not(s.mem["$exc"]))
    E.run(s, S + "::step", lv)
    E.prove("stepping between set and prepare throws", s.mem["$exc"])
    s = st.copy()
    E.run(s, S + "::prepare", lv)
    what, a = s.mem["sq:call"]
    ok = s.mem["sq:rc"] == OK
    E.prove("prepare passes the query and the connection", And(T if a[0] == E.db else F, a[1] == sql(E, st, lv)))
    E.prove("prepare takes the whole query", a[2] < 0)
    E.prove("prepare throws exactly on an error", s.mem["$exc"] == Not(ok))
    E.prove("prepared after success", Implies(ok, flags(E, s, lv)[0]))
    E.prove("a failed prepare does not make a set query steppable", Implies(And(Not(ok), Not(prep)),
                                                                           Not(flags(E, s, lv)[0])))
    E.prove("prepare keeps the query", sql(E, s, lv) == sql(E, st, lv))
    s = st.copy()
    E.run(s, S + "::reset", lv)
    ok = s.mem["sq:rc"] == OK
    E.prove("reset resets its own statement",
            T if s.mem["sq:call"][0] == "sqlite3_reset" and s.mem["sq:call"][1][0] == E.raw else F)
    E.prove("reset throws exactly on an error", s.mem["$exc"] == Not(ok))
    E.prove("after reset the statement can be stepped again", Implies(ok, flags(E, s, lv)[1]))
    E.prove("reset keeps the prepared query", And(flags(E, s, lv)[0] == prep, sql(E, s, lv) == sql(E, st, lv)))
    s = st.copy()
    E.run(s, S + "::exec", lv, [q])
    what, a = s.mem["sq:call"]
    E.prove("exec executes the given query on its connection", And(T if a[0] == E.db else F, a[1] == q))
    E.prove("exec throws exactly on an error", s.mem["$exc"] == (s.mem["sq:rc"] != OK))
    E.prove("after exec the statement has to be prepared again", Not(flags(E, s, lv)[0]))


@task("binding and reading values", [TU])
def t_bind(E):
    st, lv = stmt(E)
    w = E.fresh("int", "where")
    for t, call, x in (("double", "sqlite3_bind_double", E.fresh("double", "d")), ("int", "sqlite3_bind_int", E.fresh("int", "i"))):
        s = st.copy()
        E.run(s, S + "::bind", lv, [w, x], ptypes=["int", t])
        c, a = s.mem["sq:call"]
        E.prove("bind %s: value and position reach SQLite" % t,
                And(T if c == call and a[0] == E.raw else F, a[1] == w, a[2] == x))
        E.prove("bind %s: throws exactly on an error" % t, s.mem["$exc"] == (s.mem["sq:rc"] != OK))
    for kind, pt in (("lasting", "const std::basic_string"), ("temporary", "&&")):
        s = st.copy()
        x = E.fresh("std::basic_string<char>", "x")
        E.run(s, S + "::bind", lv, [w, E.alloc(s, x)], ptypes=["int", pt])
        c, a = s.mem["sq:call"]
        E.prove("bind %s text: text, length and position reach SQLite" % kind,
                And(T if a[0] == E.raw else F, a[1] == w, a[2] == x, a[3] == E.uninterp("strlen", z3.RealSort(), z3.IntSort())(x)))
        if kind == "temporary":
            E.prove("a temporary text is copied by SQLite", T if destructor(a[4]) == TRANSIENT else F)
        else:
            E.prove("a lasting text is copied or referenced", T if destructor(a[4]) in (STATIC, TRANSIENT) else F)
        E.prove("bind %s text: throws exactly on an error" % kind, s.mem["$exc"] == (s.mem["sq:rc"] != OK))
    col = E.fresh("int", "col")
    for fn, call, t in (("f0", "sqlite3_column_double", "double"), ("f1", "sqlite3_column_int", "int")):
        v = E.fresh(t, "stored")

        def h(E, st, A, v=v):
            E.prove("reads the column of its own statement", And(T if A.val(0) == E.raw else F, A.val(1) == col), st)
            return v
        E.contracts[call] = h
    x = E.fresh("std::basic_string<char>", "stored")

    def h(E, st, A):
        E.prove("reads the column of its own statement", And(T if A.val(0) == E.raw else F, A.val(1) == col), st)
        return x
    E.contracts["sqlite3_column_text"] = h
    for f in E.P.by_q[S + "::get"]:
        s = st.copy()
        r = E.run(s, None, lv, [col], fn=f)
        if "string" in f["ret"]:
            E.prove("get text: the stored text", r == x)
        else:
            want = E.contracts["sqlite3_column_" + f["ret"]].__defaults__[0]
            E.prove("get %s: the stored value" % f["ret"], r == want)


def destructor(v):
    """the destructor argument of sqlite3_bind_text as a number"""
    if isinstance(v, Null):
        return 0
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        return v.as_long() if z3.is_int_value(v) else None
    if isinstance(v, int):
        return v
    return int(v.tag.split()[1]) if isinstance(v, Opaque) and v.type == "address" else None


@task("a range-based loop visits every row once", [TU])
def t_iter(E):
    st, lv = stmt(E, failing=False)
    n = z3.Int("n")
    prep, valid = flags(E, st, lv)
    E.assume(And(prep, valid, z3.Int("pos") == 0), st)

    def inv(c):
        s = c.st
        its = [v for r, v in s.mem.items() if r.startswith("begin!") and v.type == S + "::iterator"]
        if len(its) != 1:
            raise Unsupported("no single statement iterator")
        it = its[0]
        others = E.P.fields(S + "::iterator")
        end = it.f[[x["name"] for x in others if "end" in x["name"]][0]]
        p, v = flags(E, s, lv)
        # the body is about to run for row n: the cursor has passed it
        return And(p, c["n"] >= 0, Implies(end, And(c["n"] == n, s.mem["sq:pos"] == n)),
                   Implies(Not(end), And(s.mem["sq:pos"] == c["n"] + 1, v, c["n"] < n)))
    E.loops["*"] = {"inv": inv}
    r = E.run(st, "rows", None, [lv])
    E.prove("the body runs once per row", r == n)
    E.prove("the loop ends without an error", Not(st.mem["$exc"]))
    E.cover("several rows", n >= 3)
    E.cover("no row", n == 0)


def handle(E, st, n):
    db = E.alloc(st, Opaque("sqlite3"), "db_" + n)
    f = {}
    for x in E.P.fields(H):
        f[x["name"]] = db if "unique_ptr" in x["type"] else E.fresh(x["type"], x["name"])
    return E.alloc(st, Rec(H, f), n), db


def ptr_of(E, st, v):
    return v


@task("the connection", [TU])
def t_handle(E):
    st = E.new_state()
    st.mem["sq:call"], st.mem["sq:rc"] = None, z3.IntVal(0)
    api(E)
    E.raw = None
    new = E.alloc(st, Opaque("sqlite3"), "newdb")
    name, fl = E.fresh("std::basic_string<char>", "file"), E.fresh("int", "flags")
    rc0 = E.fresh("int", "open_rc")
    E.facts.append(rc0 >= 0)

    def opens(E, st, A):
        E.prove("opens the named file", A.val(0) == name, st)
        E.prove("with the given flags", A.val(2) == fl, st)
        E.write(st, A.val(1), new)
        return rc0
    E.contracts["sqlite3_open_v2"] = opens
    s = st.copy()
    f = [x for x in E.P.by_q[H + "::handle"] if len(x["params"]) == 2][0]
    lv = E.alloc(s, Rec(H, {}), "h")
    E.run(s, None, lv, [name, fl], fn=f)
    x = s.mem["$exc"]
    E.prove("a file that cannot be opened is an error", Implies(rc0 != OK, x))
    E.prove("the busy handler is installed for this handle", Implies(Not(x), installed(E, s, lv, new)))
    E.prove("throws only on an error", Implies(And(rc0 == OK, s.mem["sq:rc"] == OK), Not(x)))
    E.cover("opened", Not(x))
    # moving: the busy handler follows the living object
    s = st.copy()
    o, db = handle(E, s, "other")
    th = threshold(E, s, o)
    lv = E.alloc(s, Rec(H, {}), "h")
    f = [x for x in E.P.by_q[H + "::handle"] if len(x["params"]) == 1][0]
    E.run(s, None, lv, [o], fn=f)
    E.prove("a moved handle keeps its connection", T if dbof(E, s, lv) == db else F)
    E.prove("a moved handle keeps its patience", threshold(E, s, lv) == th)
    E.prove("the busy handler is installed for the new handle", installed(E, s, lv, db))
    s = st.copy()
    o, db = handle(E, s, "other")
    lv, db2 = handle(E, s, "h")
    th = threshold(E, s, o)
    E.run(s, H + "::operator=", lv, [o])
    E.prove("assignment takes the connection", T if dbof(E, s, lv) == db else F)
    E.prove("assignment takes the patience", threshold(E, s, lv) == th)
    E.prove("assignment installs the busy handler for the target", installed(E, s, lv, db))
    s = st.copy()
    lv, db = handle(E, s, "h")
    E.run(s, H + "::operator=", lv, [lv])
    E.prove("self-assignment keeps the connection", T if dbof(E, s, lv) == db else F)
    # the handler itself
    s = st.copy()
    lv, db = handle(E, s, "h")
    k = E.fresh("int", "prior_calls")
    E.contracts["std::this_thread::sleep_for"] = lambda E, st, A: VOID
    E.contracts["utils::randint"] = lambda E, st, A: E.fresh("int", "pause")
    E.contracts["std::chrono::duration::duration"] = lambda E, st, A: Opaque("duration")
    r = E.run(s, H + "::busy_handler", None, [lv, k])
    E.prove("waits and retries until the patience is used up, then gives up",
            r == z3.If(k < threshold(E, s, lv), z3.IntVal(1), z3.IntVal(0)))
    E.prove("the handler does not throw", Not(s.mem["$exc"]))


def threshold(E, s, lv):
    return E.read(s, lv).f[[x["name"] for x in E.P.fields(H) if x["type"] == "int"][0]]


def dbof(E, s, lv):
    return E.read(s, lv).f[[x["name"] for x in E.P.fields(H) if "unique_ptr" in x["type"]][0]]


def installed(E, s, lv, db):
    """the last busy handler installed is the right function, for this object and this connection"""
    def m(a):
        fn = (a[1].f.get("q") if isinstance(a[1], Closure) else "") or ""
        return a[0] == db and a[2] == lv and fn.endswith("::busy_handler")
    return Or(*[c for c, a in E.busy if m(a)])
