"""tools/try.py CHECK[,CHECK] FILE OLD NEW: apply a textual change to a scratch copy of /repo's package, run checks against it."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="try.")
try:
    subprocess.run(["cp", "-a", "/repo/qetpy", d + "/"], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks.split(","):
        r = subprocess.run(["bash", V + "/bin/check", c, "quick"], env=dict(os.environ, PYTHONPATH=d, VERIF_EVID=d + "/evid"), capture_output=True, text=True)
        print(c, "rc", r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("rejected", "C"))][:3])
finally:
    shutil.rmtree(d)
