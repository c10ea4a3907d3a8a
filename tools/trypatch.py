"""tools/trypatch.py PATCH CHECK[,CHECK]: apply a patch to a scratch copy of /repo's package, run checks against it."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
patch, checks = sys.argv[1:3]
d = tempfile.mkdtemp(prefix="try.")
try:
    subprocess.run("git -C /repo archive HEAD qetpy | tar x -C " + d, shell=True, check=True)
    subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", os.path.abspath(patch)], check=True)
    for c in checks.split(","):
        r = subprocess.run(["bash", V + "/bin/check", c, "quick"], env=dict(os.environ, PYTHONPATH=d, VERIF_EVID=d + "/evid"), capture_output=True, text=True)
        print(c, "rc", r.returncode, [l[:110] for l in r.stdout.splitlines() if l.startswith(("rejected", "C"))][:3])
finally:
    shutil.rmtree(d)
