#!/usr/bin/env python3
"""mut.py [-e] FILE OLD NEW ID...   run checks against a scratch copy of /repo with one text replaced (sensitivity testing)"""
import os, shutil, subprocess, sys, tempfile
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (os.environ.get("MUT_SRC", "/repo"), d), shell=True)
    p = d + "/" + f
    t = open(p).read()
    n = t.count(old)
    if n == 0:
        sys.exit("text not found")
    open(p, "w").write(t.replace(old, new, 1))
    for i in ids:
        e = dict(os.environ, BFV_REPO=d)
        r = subprocess.run(["python3-vt", "check.py", i], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace").splitlines()
        print("%s rc=%d%s | %s" % (i, r.returncode, " (%d matches)" % n if n > 1 else "", " | ".join(x[:160] for x in o[:2])), flush=True)
finally:
    shutil.rmtree(d)
