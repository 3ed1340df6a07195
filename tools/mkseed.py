#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.py  (SPEC defines ID, PROP, EDITS=[(old,new)], DEMO (C++ main body returning bool ok), NEEDS, BREAKS)
Confirms in a scratch copy that it builds, passes the stable tests, and that the demo separates the trees."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O2 %s -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
'''
PRE = '''#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <vector>
#include <thread>
#include "colorsystem.hpp"
using namespace ColorSystem;
static bool near(double a, double b, double t) { return fabs(a - b) <= t; }
'''
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def make(m):
    d = os.path.join(V, "seeded", m["ID"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh(["git", "-C", "/repo", "worktree", "prune"])
        r = os.path.join(w, "r"); subprocess.check_call(["git", "clone", "-q", "/repo", r])
        f = os.path.join(r, "include/colorsystem.hpp"); s = open(f).read()
        for e in m["EDITS"]:
            o, n = e[0], e[1]
            assert s.count(o) >= 1, "not found: " + o
            if len(e) == 2: assert s.count(o) == 1, "ambiguous (%d): %s" % (s.count(o), o); s = s.replace(o, n)
            else:
                p = -1
                for _ in range(e[2] + 1): p = s.index(o, p + 1)
                s = s[:p] + n + s[p + len(o):]
        open(f, "w").write(s)
        diff = sh(["git", "-C", r, "diff"]).stdout; assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(PRE + m["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % m.get("FLAGS", "")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=m["PROP"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        x = sh([os.path.join(d, "demo.sh")], cwd="/repo"); y = sh([os.path.join(d, "demo.sh")], cwd=r)
        t = sh(["g++", "-std=gnu++17", "-w", "-O2", "-include", "cstring", "-DCATCH_CONFIG_NO_POSIX_SIGNALS", "-I" + r + "/include", "-I" + r + "/test"] , cwd=r)
        bd = os.path.join(w, "b")
        c = sh(["cmake", "-S", r, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=-Wno-error -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS"])
        c = sh(["ninja", "-C", bd])
        if c.returncode: print(m["ID"], "BUILD FAILED", c.stdout[-800:]); return False
        lf = os.path.join(w, "l.txt")
        sh(["python3", "/opt/vp/catch_run.py", os.path.join(bd, "test/colortest"), "/repo/test", lf])
        base = json.load(open("/opt/vp/BASELINE.json"))
        sh(["python3", "/opt/vp/results.py", os.path.join(w, "o.json"), "lines:" + lf])
        o = json.load(open(os.path.join(w, "o.json")))
        stable = base if isinstance(base, list) else base.get("stable", base.get("passed", base.get("tests")))
        bad = [n for n in stable if n not in o.get("passed", [])]
        ok = x.returncode == 0 and y.returncode not in (0, 3) and not bad
        print(m["ID"], "OK" if ok else "BAD", "clean", x.returncode, x.stderr[-300:], "patched", y.returncode, y.stdout[-200:], "tests failing:", bad)
        return ok
    finally: shutil.rmtree(w)
if __name__ == "__main__":
    g = {}; exec(open(sys.argv[1]).read(), g)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: list(ex.map(make, [b for b in g["BUGS"] if len(sys.argv) < 3 or b["ID"] in sys.argv[2:]]))
