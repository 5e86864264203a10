"""What was saved and loaded is the same object: every data member of the states, of the keys and of the caches of matrix
elements and of the systems is written and read back, in the same order under the same names."""
import z3

from driver import task
from sparse import install_states, states_vec
from vc import VOID
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s22.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (60, 1500), "flags": ["-D_GLIBCXX_ASSERTIONS"]}
RULE = ("random histories of random systems saved and loaded (binary and JSON) and continued on both sides, caches, states "
        "and matrices; distinct by content")
ASSUME = ["cereal stores arithmetic types, strings, standard containers and byte blocks and reads back what it stored, calls serialize / save / load of the members' classes, and a name-value pair refers to the variable it is made of",
          "boost::multi_index: no two states of a list are equal, so every state that is appended is kept",
          "Eigen: a compressed matrix is its sizes and three arrays (innerIndexPtr, outerIndexPtr, valuePtr) of nonZeros, outerSize+1 and nonZeros entries; resize and resizeNonZeros make room for them",
          "the cache of a system is saved by value: the system that is loaded has been constructed with a cache of its own",
          "not compared: database handles (reopened from the saved name), the position idx of the legacy states"]
TU = "tu:tu/save.cpp"


class Nvp(V):
    __slots__ = ("name", "x")

    def __init__(self, name, x):
        self.name, self.x = name, x


class Base(V):
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Tape:
    """what was written, in order: names and values"""

    def __init__(self):
        self.e, self.at, self.why = [], 0, []


def install(E, t):
    def make_nvp(E, st, a):
        n = a.val(0)
        x = a.lv(1)
        if isinstance(st.mem.get(x.root), Base):
            x = st.mem[x.root]
        return Nvp(getattr(n, "s", None), x)

    def item(E, st, a):
        x = a.val(0)
        if isinstance(x, Nvp):
            return x.name, x.x
        return "", a.lv(0)

    def base(E, st, b, ar, kind):
        c = [q[:-len("::serialize")] for q in E.P.by_q if q.startswith("SystemBase<") and q.endswith("::serialize")]
        c = [x for x in c if E.P.derived_from(E.cl, x)]
        if len(c) != 1:
            raise Unsupported("base class of " + E.cl)
        E.run(st, c[0] + "::serialize", b.lv, [ar, z3.IntVal(0)], ptypes=[kind + " &", "unsigned"])

    def save(E, st, a):
        ar = a.this()
        name, x = item(E, st, a)
        if isinstance(x, Base):
            base(E, st, x, ar, "Saver")
        else:
            t.e.append((name, x, E.read(st, x)))
        return ar

    def load(E, st, a):
        ar = a.this()
        name, x = item(E, st, a)
        if isinstance(x, Base):
            base(E, st, x, ar, "Loader")
        elif t.at >= len(t.e):
            t.why.append("reads more than was written")
        else:
            n, y, v = t.e[t.at]
            t.at += 1
            if n != name:
                t.why.append("reads %s where %s was written" % (name, n))
            E.write(st, x, v)
        return ar

    E.contracts["cereal::make_nvp"] = make_nvp
    for q in ("operator&", "operator()"):
        E.contracts["Saver::" + q] = save
        E.contracts["Loader::" + q] = load
    E.contracts["cereal::base_class::base_class"] = lambda E, st, a: Base(a.val(0))


KEYS = ["MatrixElementCache::CacheKey_cache_" + x for x in ("radial", "angular", "reduced_commutes", "reduced_multipole")]
SIMPLE = ["StateOne", "StateTwo", "StateOneOld", "StateTwoOld", "enumerated_state<StateOne>", "enumerated_state<StateTwo>"] + KEYS
SKIP = {"StateOneOld": ("idx",), "StateTwoOld": ("idx",), "MatrixElementCache": ("db", "stmt", "pid_which_created_db")}


def roundtrip(E, cl, prepare=None):
    t = Tape()
    E.cl = cl
    install(E, t)
    st = E.new_state()
    ar = E.alloc(st, Rec("Archive", {}), "ar")
    x = E.alloc(st, E.fresh(cl, "x"), "x")
    y = E.alloc(st, E.fresh(cl, "y"), "y")
    if prepare:
        prepare(st, x), prepare(st, y)
    x0 = E.read(st, x)
    E.run(st, cl + "::serialize", x, [ar, z3.IntVal(0)], ptypes=["Saver &", "unsigned"])
    E.prove("%s: saving cannot fail" % cl, Not(st.mem["$exc"]))
    E.run(st, cl + "::serialize", y, [ar, z3.IntVal(0)], ptypes=["Loader &", "unsigned"])
    E.prove("%s: reads what was written under the same names%s" % (cl, "" if not t.why else " (%s)" % t.why[0]),
            z3.BoolVal(not t.why and t.at == len(t.e)))
    y1, x1 = E.read(st, y), E.read(st, x)
    for f in E.P.fields(cl):
        f = f["name"]
        if f in SKIP.get(cl, ()) or f == "m_cache":
            continue
        E.prove("%s: %s is the one saved" % (cl, f), teq(y1.f[f], x0.f[f]))
        E.prove("%s: saving leaves %s alone" % (cl, f), teq(x1.f[f], x0.f[f]))
    return st, x, y


def db(E):
    """databases: what is opened, under which condition"""
    opened = []

    def make_unique(E, st, a):
        if a.n and "handle" in a.f["ret"]:
            v = a.val(0)
            opened.append((And(st.live(), *st.pc), E.read(st, v) if isinstance(v, LV) else v))
        return E.alloc(st, Opaque(a.f["ret"]))
    E.contracts["std::make_unique"] = make_unique
    E.contracts["utils::get_pid"] = lambda E, st, a: z3.Int("pid")
    E.contracts["sqlite::statement::exec"] = lambda E, st, a: VOID
    return opened


for _cl in SIMPLE:
    @task("saving and loading: " + _cl, [TU], functions=[_cl + "::serialize"])
    def t_simple(E, _cl=_cl):
        roundtrip(E, _cl)


@task("saving and loading: MatrixElementCache", [TU], functions=["MatrixElementCache::serialize"])
def t_mec(E):
    opened = db(E)
    st, x, y = roundtrip(E, "MatrixElementCache")
    n = E.read(st, y).f["dbname"]
    has = n != E.strlit("")
    E.prove("a database is opened exactly if the saved cache had one", z3.Or(*[c for c, v in opened]) == has)
    for c, v in opened:
        E.prove("the database is the one of the saved cache", Implies(c, v == n))
    p = E.read(st, y).f["pid_which_created_db"]
    E.prove("the process that opened it is noted", Implies(has, p == z3.Int("pid")))


for _cl in ["SystemBase<%s, %s>" % (a, b) for a in ("double", "std::complex<double>") for b in ("StateOne", "StateTwo")] + [
        "%s<%s>" % (a, b) for a in ("SystemOne", "SystemTwo") for b in ("double", "std::complex<double>")]:
    @task("saving and loading: " + _cl, [TU], functions=[_cl + "::serialize"])
    def t_sys(E, _cl=_cl):
        install_states(E)
        db(E)

        def prepare(st, z):
            r = E.read(st, z)
            c = E.alloc(st, E.fresh("MatrixElementCache", "cache"), "cache")
            E.write(st, z, r.with_("m_cache", c))
        st, x, y = roundtrip(E, _cl, prepare)
        u, v = (E.read(st, E.read(st, z).f["m_cache"]) for z in (x, y))
        for f in E.P.fields("MatrixElementCache"):
            if f["name"] not in SKIP["MatrixElementCache"]:
                E.prove("the cache: %s is the one saved" % f["name"], teq(u.f[f["name"]], v.f[f["name"]]))


class Size(V):
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


for _s in ("StateOne", "StateTwo"):
    @task("saving and loading: list of %s" % _s, [TU], functions=["cereal::save", "cereal::load"], multi_index=True)
    def t_list(E, _s=_s):
        install_states(E)
        st = E.new_state()
        x = E.alloc(st, states_vec(E, st, _s, "x"), "x")
        x0 = E.read(st, x)
        y = E.alloc(st, x0.__class__(x0.et, z3.IntVal(0), E.fresh_like(x0.d, "y")), "y")
        ar = E.alloc(st, Rec("Archive", {}), "ar")
        st.mem["ghost len"] = z3.IntVal(-1)
        st.mem["ghost size"] = z3.IntVal(-1)
        st.mem["ghost tape"] = E.fresh_like(x0.d, "tape")
        E.contracts["cereal::make_size_tag"] = lambda E, st, a: Size(a.val(0) if not E.is_lv(a.args[0]) else a.lv(0))

        def save(E, st, a):
            v = a.val(0)
            n = st.mem["ghost len"]
            if isinstance(v, Size):
                E.prove("the size comes first", n == -1, st)
                st.mem["ghost size"] = E.read(st, v.lv) if isinstance(v.lv, LV) else v.lv
            else:
                E.prove("the size comes first", n >= 0, st)
                v = E.read(st, v) if isinstance(v, LV) else v
                st.mem["ghost tape"] = tmap(lambda p, q: z3.Store(p, n, q), st.mem["ghost tape"], v)
            st.mem["ghost len"] = n + 1
            return ar

        def load(E, st, a):
            v = a.val(0)
            n = st.mem["ghost len"]
            if isinstance(v, Size):
                E.prove("the size is read first", n == -1, st)
                E.write(st, v.lv, st.mem["ghost size"])
            else:
                E.prove("only what was written is read", And(n >= 0, n < st.mem["ghost size"]), st)
                E.write(st, a.lv(0), tmap(lambda p: z3.Select(p, n), st.mem["ghost tape"]))
            st.mem["ghost len"] = n + 1
            return ar
        E.contracts["Saver::operator()"] = save
        E.contracts["Loader::operator()"] = load
        k = z3.Int("k")

        def alike(u, v, n):
            out = []
            tmap(lambda p, q: out.append(z3.Select(p, k) == z3.Select(q, k)) or p, u, v)
            return z3.ForAll([k], Implies(And(k >= 0, k < n), And(*out)))
        E.loops["cereal::save"] = {"inv": lambda c: And(
            c.idx >= 0, c.idx <= x0.n, c.st.mem["ghost len"] == c.idx, alike(c.st.mem["ghost tape"], x0.d, c.idx))}
        E.run(st, "cereal::save", None, [ar, x], ptypes=["Saver &", _s])
        E.prove("everything is written", And(st.mem["ghost size"] == x0.n, st.mem["ghost len"] == x0.n,
                                             alike(st.mem["ghost tape"], x0.d, x0.n)))
        E.prove("saving leaves the list alone", teq(E.read(st, x), x0))
        st.mem["ghost len"] = z3.IntVal(-1)
        E.loops["cereal::load"] = {"inv": lambda c: And(
            c["i"] >= 0, c["i"] <= x0.n, c.st.mem["ghost len"] == c["i"], E.read(c.st, y).n == c["i"], c["size"] == st.mem["ghost size"],
            alike(E.read(c.st, y).d, x0.d, c["i"]))}
        E.run(st, "cereal::load", None, [ar, y], ptypes=["Loader &", _s])
        y1 = E.read(st, y)
        E.prove("as many states are read as were written", y1.n == x0.n)
        E.prove("every state is the one that was written", alike(y1.d, x0.d, x0.n))
        E.prove("cannot fail", Not(st.mem["$exc"]))


SP = "Eigen::SparseMatrix<%s, 0, int>"


class Ptr(V):
    """the array of a matrix: which one, and how many entries it has"""
    __slots__ = ("lv", "what")

    def __init__(self, lv, what):
        self.lv, self.what = lv, what


for _t in ("double", "std::complex<double>"):
    @task("saving and loading: sparse matrix of %s" % _t, [TU], functions=["cereal::serialize"])
    def t_sparse(E, _t=_t):
        st = E.new_state()
        names = ("inner", "outer", "nnz", "ip", "op", "vp", "compressed")
        x, y = [E.alloc(st, Rec("matrix", {"IsRowMajor": z3.IntVal(0), **{k: z3.Int(fresh_name(n + k)) for k in names}}), n) for n in "xy"]
        x0 = E.read(st, x)
        for k in ("inner", "outer", "nnz"):
            E.facts.append(x0.f[k] >= 0)
            E.facts.append(x0.f[k] < 2 ** 31 - 1)
        con = E.contracts
        t = Tape()
        M_ = SP % _t
        size = {"ip": lambda r: r.f["nnz"], "vp": lambda r: r.f["nnz"], "op": lambda r: r.f["outer"] + 1}

        def field(k):
            def g(E, st, a):
                r = a.thisv()
                if k == "nnz":
                    E.prove("entries are counted after the matrix was compressed", r.f["compressed"] == 1, st)
                return r.f[k]
            return g

        def sets(f):
            def g(E, st, a):
                lv = a.this()
                r = E.read(st, lv)
                for k, v in f(r, *[a.val(i) for i in range(a.n)]).items():
                    r = r.with_(k, v)
                E.write(st, lv, r)
                return VOID
            return g
        for q in (M_ + "::", "Eigen::SparseMatrix::", "Eigen::SparseCompressedBase::", "Eigen::SparseMatrixBase::"):
            con[q + "makeCompressed"] = sets(lambda r: {"compressed": z3.IntVal(1)})
            con[q + "finalize"] = lambda E, st, a: VOID
            con[q + "innerSize"], con[q + "outerSize"] = field("inner"), field("outer")
            con[q + "rows"], con[q + "cols"] = field("inner"), field("outer")
            con[q + "nonZeros"] = field("nnz")
            con[q + "resize"] = sets(lambda r, n, m: {"inner": n, "outer": m, "nnz": z3.IntVal(0), "compressed": z3.IntVal(1)})
            con[q + "resizeNonZeros"] = sets(lambda r, n: {"nnz": n})
            for p, k in (("innerIndexPtr", "ip"), ("outerIndexPtr", "op"), ("valuePtr", "vp")):
                con[q + p] = lambda E, st, a, k=k: Ptr(a.this(), k)

        def array(E, st, v):
            """an array on the tape: the matrix must be compressed and the array have the stated length"""
            p, n = v.f["data"], v.f["size"]
            r = E.read(st, p.lv)
            E.prove("the array has as many entries as are transferred", And(r.f["compressed"] == 1, n == size[p.what](r)), st)
            return p

        def arg(E, st, a):
            v = a.val(0)
            if not isinstance(v, Nvp):
                raise Unsupported("archived value")
            w = E.read(st, v.x)
            return v.name, v.x, w

        def save(E, st, a):
            name, lv, w = arg(E, st, a)
            if isinstance(w, Rec):
                p = array(E, st, w)
                w = (p.what, E.read(st, p.lv).f[p.what])
            t.e.append((name, w))
            return a.this()

        def load(E, st, a):
            name, lv, w = arg(E, st, a)
            if t.at >= len(t.e) or t.e[t.at][0] != name:
                t.why.append("reads %s" % name)
                return a.this()
            _, v = t.e[t.at]
            t.at += 1
            if isinstance(w, Rec):
                p = array(E, st, w)
                if not isinstance(v, tuple) or v[0] != p.what:
                    t.why.append("reads %s" % name)
                else:
                    E.write(st, p.lv, E.read(st, p.lv).with_(p.what, v[1]))
            else:
                E.write(st, lv, v)
            return a.this()
        con["Saver::operator()"], con["Loader::operator()"] = save, load
        con["cereal::make_nvp"] = lambda E, st, a: Nvp(getattr(a.val(0), "s", None), a.lv(1))
        ar = E.alloc(st, Rec("A", {}), "ar")
        E.run(st, "cereal::serialize", None, [ar, x], ptypes=["Saver &", "SparseMatrix<" + _t])
        E.run(st, "cereal::serialize", None, [ar, y], ptypes=["Loader &", "SparseMatrix<" + _t])
        E.prove("reads what was written under the same names%s" % ("" if not t.why else " (%s)" % t.why[0]), z3.BoolVal(not t.why and t.at == len(t.e)))
        y1 = E.read(st, y)
        for k in names[:-1]:
            E.prove("%s is the one saved" % {"inner": "the number of rows", "outer": "the number of columns", "nnz": "the number of entries", "ip": "the array of rows", "op": "the array of columns", "vp": "the array of values"}[k], y1.f[k] == x0.f[k])
        E.prove("cannot fail", Not(st.mem["$exc"]))


for _t in ("double", "std::complex<double>"):
    @task("saving and loading: matrix of %s" % _t, [TU], functions=["cereal::serialize"])
    def t_dense(E, _t=_t):
        st = E.new_state()
        names = ("rows", "cols", "data")
        x, y = [E.alloc(st, Rec("matrix", {k: z3.Int(fresh_name(n + k)) for k in names}), n) for n in "xy"]
        x0 = E.read(st, x)
        con = E.contracts
        t = Tape()

        def resize(E, st, a):
            E.write(st, a.this(), Rec("matrix", {"rows": a.val(0), "cols": a.val(1), "data": E.read(st, a.this()).f["data"]}))
            return VOID
        for q in ("Eigen::Matrix<%s, -1, -1, 0, -1, -1>::" % _t, "Eigen::Matrix::", "Eigen::PlainObjectBase::", "Eigen::EigenBase::", "Eigen::DenseBase::", "Eigen::DenseCoeffsBase::"):
            con[q + "rows"] = lambda E, st, a: a.thisv().f["rows"]
            con[q + "cols"] = lambda E, st, a: a.thisv().f["cols"]
            con[q + "data"] = lambda E, st, a: Ptr(a.this(), "data")
            con[q + "resize"] = resize

        def move(loading):
            def go(E, st, a):
                v = a.val(0)
                if not isinstance(v, Nvp):
                    raise Unsupported("archived value")
                w = E.read(st, v.x)
                if isinstance(w, Rec):
                    p = w.f["data"]
                    r = E.read(st, p.lv)
                    E.prove("as many entries are transferred as the matrix has", w.f["size"] == r.f["rows"] * r.f["cols"], st)
                if not loading:
                    t.e.append((v.name, r.f["data"] if isinstance(w, Rec) else w))
                elif t.at >= len(t.e) or t.e[t.at][0] != v.name:
                    t.why.append("reads %s" % v.name)
                else:
                    x = t.e[t.at][1]
                    t.at += 1
                    if isinstance(w, Rec):
                        E.write(st, p.lv, r.with_("data", x))
                    else:
                        E.write(st, v.x, x)
                return a.this()
            return go
        con["Saver::operator()"], con["Loader::operator()"] = move(False), move(True)
        con["cereal::make_nvp"] = lambda E, st, a: Nvp(getattr(a.val(0), "s", None), a.lv(1))
        ar = E.alloc(st, Rec("A", {}), "ar")
        E.run(st, "cereal::serialize", None, [ar, x], ptypes=["Saver &", "::Matrix<" + _t])
        E.run(st, "cereal::serialize", None, [ar, y], ptypes=["Loader &", "::Matrix<" + _t])
        E.prove("reads what was written under the same names%s" % ("" if not t.why else " (%s)" % t.why[0]), z3.BoolVal(not t.why and t.at == len(t.e)))
        y1 = E.read(st, y)
        for k in names:
            E.prove("%s of the matrix: as saved" % k, y1.f[k] == x0.f[k])


SIZES = {"int": 4, "double": 8, "std::complex<double>": 16}
for _t in SIZES:
    for _n in ("int", "long"):
        @task("saving and loading: array of %s with size of type %s" % (_t, _n), [TU], functions=["ArrayData::serialize"])
        def t_array(E, _t=_t, _n=_n):
            con = E.contracts
            cl = "ArrayData<%s, %s>" % (_t, _n)
            for ar, text in (("Saver", False), ("Loader", False), ("SaverOfText", True), ("LoaderOfText", True)):
                st = E.new_state()
                n = z3.Int(fresh_name("size"))
                E.facts.append(And(n >= 0, n < 2 ** 31 - 1))
                v = E.fresh("std::vector<%s, std::allocator<%s>>" % (_t, _t), "content")
                E.facts.append(v.n == n)
                data = E.alloc(st, v, "content").sub(("i", z3.IntVal(0)))
                x = E.alloc(st, Rec(cl, {"data": data, "size": n}), "x")
                st.mem["ghost at"] = z3.IntVal(-1)
                done = []

                def move(E, st, a, text=text):
                    v = a.val(0)
                    if isinstance(v, Size):
                        E.prove("%s: the size comes first" % ar, And(st.mem["ghost at"] == -1, (E.read(st, v.lv) if isinstance(v.lv, LV) else v.lv) == n), st)
                        st.mem["ghost at"] = z3.IntVal(0)
                    elif isinstance(v, Bytes):
                        E.prove("%s: all bytes of the array are transferred, once" % ar, And(
                            z3.BoolVal(v.p == data), st.mem["ghost at"] == 0, v.n == n * SIZES[_t]), st)
                        st.mem["ghost at"] = n
                    elif text:
                        lv = a.lv(0)
                        if lv.root != data.root or len(lv.path) != 1:
                            raise Unsupported("archived value")
                        E.prove("%s: the entries are transferred in order" % ar, lv.path[0][1] == st.mem["ghost at"], st)
                        st.mem["ghost at"] = st.mem["ghost at"] + 1
                    else:
                        raise Unsupported("archived value %s" % type(v))
                    return a.this()
                con[ar + "::operator()"] = move
                con["cereal::make_size_tag"] = lambda E, st, a: Size(a.val(0) if not E.is_lv(a.args[0]) else a.lv(0))
                con["cereal::binary_data"] = lambda E, st, a: Bytes(a.val(0), a.val(1))
                E.loops[cl + "::serialize"] = {"inv": lambda c: And(c["i"] >= 0, c["i"] <= n, c.st.mem["ghost at"] == c["i"])}
                a = E.alloc(st, Rec("A", {}), "ar")
                E.run(st, cl + "::serialize", x, [a], ptypes=[ar + " &"])
                E.prove("%s: the whole array is transferred" % ar, st.mem["ghost at"] == n)


class Bytes(V):
    __slots__ = ("p", "n")

    def __init__(self, p, n):
        self.p, self.n = p, n
