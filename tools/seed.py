#!/usr/bin/env python3
"""seed.py new ID PROP FILE OLD NEW 'needs' 'breaks'   make seeded/ID from a replacement
   seed.py test ID [--notests]   demo on both trees, stable tests and the check with the change."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(S): sh("cp -a /repo %s; rm -rf %s/_build" % (S, S))
    sh("cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -- ." % S)
if sys.argv[1] == "new":
    i, prop, f, old, new, needs, breaks = sys.argv[2:9]
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    fresh()
    p = os.path.join(S, f); s = open(p, newline="").read()
    crlf = "\r\n" in s
    if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    if s.count(old) != 1: sys.exit("old text found %d times" % s.count(old))
    open(p, "w", newline="").write(s.replace(old, new))
    r = sh("cd %s && git diff" % S).stdout
    # keep bytes
    with open(os.path.join(d, "patch.diff"), "wb") as g:
        g.write(subprocess.run("git diff", shell=True, cwd=S, capture_output=True).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    fresh(); print(r)
elif sys.argv[1] == "test":
    i = sys.argv[2]; d = os.path.join(V, "seeded", i); prop = json.load(open(d + "/meta.json"))["property"]
    tests = "--notests" not in sys.argv
    fresh(); ok = True
    D = "/tmp/seeddemo"; shutil.rmtree(D, ignore_errors=True); shutil.copytree(d, D, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash %s/demo.sh" % D, cwd=S, timeout=300); print("demo unchanged rc", r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:]); ok = False
    a = sh("git apply %s/patch.diff" % d, cwd=S)
    if a.returncode: sys.exit("does not apply: " + a.stderr)
    r = sh("bash %s/demo.sh" % D, cwd=S, timeout=300); print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    ok &= r.returncode != 0
    if tests:
        C = "/tmp/seedcmake"; shutil.rmtree(C, ignore_errors=True); shutil.copytree("/opt/vp/cmake", C)
        sh("sed -i 's#set(REPO /repo)#set(REPO %s)#' %s/CMakeLists.txt" % (S, C))
        sh("mkdir -p %s/_build/work" % S)
        b = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug && cmake --build %s/_build -j8 --target CommonTests" % (C, S, S), env=dict(os.environ, CC="gcc", CXX="g++"))
        if b.returncode: print("BUILD FAILS", b.stdout[-1500:]); ok = False
        else:
            t = sh("ctest --test-dir %s/_build -j1 --timeout 60" % S)
            m = [l for l in t.stdout.split("\n") if "tests passed" in l or "Failed" in l]
            print("\n".join(m[:10])); ok &= "100% tests passed" in t.stdout
    r = sh("python3 %s/run.py check %s" % (V, prop), env=dict(os.environ, VERIF_REPO=S)); print(r.stdout[-900:] if len(r.stdout) < 900 else r.stdout[:500] + "..." + r.stdout[-200:])
    print("==", i, "OK" if ok else "NOT VALID", "caught" if r.returncode == 1 else "MISSED")
    fresh()
