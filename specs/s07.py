"""The shared cache behaves like one map: a stored value is returned unchanged until the cache is cleared, a key is
never overwritten, and every access happens under the cache's own lock."""
import z3

from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s07.cpp", "srcs": [], "n": (200, 4000), "flags": ["-pthread"]}
RULE = "random operation sequences against a reference map, and the same from several threads; distinct by sequence"
ASSUME = ["std::mutex gives mutual exclusion; std::unordered_map is a map"]
TU = "tu:tu/cache.cpp"


def both(K, V):
    @task("cache of %s to %s" % (K, V), [TU])
    def t(E):
        tag = "basic_string" if "string" in K else "Cache<int,"
        name = [r for r in E.P.rec if r.startswith("Cache<") and tag in r][0]
        st = E.new_state()
        f, cont = {}, None
        for x in E.P.fields(name):
            if "mutex" in x["type"]:
                f[x["name"]] = Opaque(x["type"])
            else:
                f[x["name"]] = E.fresh(x["type"], x["name"])
                if "map<" in x["type"]:
                    cont = x["name"]
        lv = E.alloc(st, Rec(name, f), "cache")
        get = lambda s: E.read(s, lv.sub(("f", cont)))

        def run(s, op, *a):
            E.access_hook = hook
            try:
                return E.run(s, name + "::" + op, lv, list(a))
            finally:
                E.access_hook = None

        def hook(E, st, x):
            if x.root == lv.root and x.path[:1] == (("f", cont),):
                E.prove("the lock is held at every access to the stored elements", E.locked(st), st)
        m0 = get(st)
        k = E.fresh(m0.kt, "k")
        kk = E.key(m0.kt, k)
        has, val = z3.Select(m0.dom, kk), z3.Select(m0.val, kk)

        r = run(st, "restore", k)
        E.prove("restore does not throw", Not(st.mem["$exc"]))
        E.prove("restore finds exactly the stored keys", r.has == has)
        E.prove("restore returns the stored value", Implies(has, r.v == val))
        m = get(st)
        E.prove("restore changes nothing", And(m.dom == m0.dom, m.val == m0.val))
        E.prove("restore releases the lock", Not(E.locked(st)))
        E.cover("a stored key exists", has)

        x = E.fresh(m0.vt, "x")
        s = st.copy()
        run(s, "save", k, x)
        m = get(s)
        E.prove("save throws exactly if the key is already stored", s.mem["$exc"] == has)
        E.prove("save adds the key and nothing else", m.dom == z3.Store(m0.dom, kk, T))
        E.prove("save stores the value of a new key", Implies(Not(has), z3.Select(m.val, kk) == x))
        E.prove("save never replaces a stored value", Implies(has, z3.Select(m.val, kk) == val))
        k2 = E.key(m0.kt, E.fresh(m0.kt, "k2"))
        E.prove("save leaves the other values alone",
                Implies(k2 != kk, z3.Select(m.val, k2) == z3.Select(m0.val, k2)))
        E.prove("save releases the lock, also when it throws", Not(E.locked(s)))
        E.cover("save succeeds", Not(s.mem["$exc"]))
        E.cover("save throws", s.mem["$exc"])
        # a saved value is what restore then returns
        r = run(s, "restore", k)
        E.prove("restore returns what was saved first", And(r.has, r.v == ite(has, val, x)))

        s = st.copy()
        run(s, "clear")
        E.prove("clear does not throw", Not(s.mem["$exc"]))
        E.prove("clear empties the cache", get(s).dom == z3.K(m0.dom.sort().domain(), F))
        E.prove("clear releases the lock", Not(E.locked(s)))


both("std::string", "int")
both("int", "double")
