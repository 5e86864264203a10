#!/usr/bin/env python3
"""Make and confirm planted bugs. A seed file (python) calls mk(...). Usage: tools/mkseed.py FILE.py
Everything is tried in /repo itself and undone straight afterwards."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/bash
# run in the repository's root after its build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/seed_demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
O=""
for s in "$D/demo.cpp" {srcs}; do
    o="$W/$(basename "$s").o"
    O="$O $o"
    g++ -std=c++17 -O1 -fopenmp -DEIGEN_USE_BLAS -DEIGEN_USE_LAPACKE -DFMT_HEADER_ONLY=1 -DWITH_GSL -DNDEBUG '-Dlapack_complex_double=std::complex<double>' '-Dlapack_complex_float=std::complex<float>' -w -Ipairinteraction -I_build/pairinteraction -I"$D" -isystem /usr/include/eigen3 -c "$s" -o "$o" &
done
for j in $(jobs -p); do wait $j || exit 3; done
g++ -fopenmp -o "$W/demo" $O -lgsl -lopenblas -llapacke -lsqlite3 -lboost_filesystem -lboost_system -lboost_serialization -lboost_program_options -lboost_thread -lpthread || exit 3
cd "$W" && OMP_NUM_THREADS=2 timeout 120 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def mk(name, prop, edits, demo, srcs=(), needs="", breaks="", check=True):
    d = os.path.join(V, "seeded", name)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH.replace("{srcs}", " ".join("pairinteraction/" + s for s in srcs)))
    os.chmod(d + "/demo.sh", 0o755)
    if any("Matrix" in s or "System" in s or "State.cpp" in s for s in srcs):
        os.makedirs(d + "/wignerSymbols", exist_ok=True)
        shutil.copy(V + "/engine/stub/wignerSymbols/wignerSymbols-cpp.h", d + "/wignerSymbols/")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    tmp = tempfile.mkdtemp(prefix="mkseed.")
    shutil.copytree(d, tmp + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo_sh = "timeout 300 bash %s/x/demo.sh" % tmp
    r = sh(demo_sh, cwd=R)
    ok = [("demo on the tree", r.returncode == 0, r.stdout[-400:])]
    try:
        for f, old, new in edits:
            p = R + "/pairinteraction/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "EDIT matches %d times: %s" % (s.count(old), old[:60]))
                return
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh")
        ok.append(("builds", r.returncode == 0, r.stdout[-800:]))
        r = sh("bash /opt/vp/test.sh %s/o.json" % tmp)
        res = json.load(open(tmp + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ok.append(("tests", set(base) <= set(res["passed"]), str(set(base) - set(res["passed"]))))
        r = sh(demo_sh, cwd=R)
        ok.append(("demo fails", r.returncode not in (0, 2, 3), r.stdout[-600:]))
        if check:
            r = sh("%s/check %s" % (V, prop), cwd=V)
            caught = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
            ok.append(("CAUGHT", caught, r.stdout[-600:]))
            fi = [l.strip()[:150] for l in r.stdout.splitlines() if "failing input" in l or "failed obligation" in l]
            print(name, "by:", fi[:1], [x for x in fi if "obligation" in x][:2])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        shutil.rmtree(tmp, ignore_errors=True)
    print(name, " ".join("%s=%s" % (a, "yes" if b else "NO") for a, b, _ in ok))
    for a, b, t in ok:
        if not b:
            print("   ", a, ":", t)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), {"mk": mk})
