#!/usr/bin/env python3
"""mut.py FILE OLD NEW ID... : run checks on a scratch copy with OLD->NEW in FILE."""
import os, shutil, subprocess, sys, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix="mut-")
try:
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git"))
    p = os.path.join(r, f)
    s = open(p).read()
    old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        sys.exit("text not found")
    n = int(os.environ.get("NTH", "0"))
    parts = s.split(old)
    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, "w").write(s)
    for i in sys.argv[4:]:
        subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), "check", i], env=dict(os.environ, VERIF_REPO=r))
finally:
    shutil.rmtree(d)
