"""tools/plant.py ID PROP FILE NEEDS BREAKS CHECKS  (stdin: OLD ===== NEW [##### more OLD ===== NEW] @@@@@ demo.py)

Makes /verif/seeded/ID, confirming in /repo (restored afterwards) that the change builds,
passes the stable tests, and that the demonstration tells the two trees apart; then runs CHECKS on it.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident, prop, files, needs, breaks, checks = sys.argv[1:7]
txt, demo = sys.stdin.read().split("\n@@@@@\n")
R = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
d = V + "/seeded/" + ident
os.makedirs(d, exist_ok=True)
files = files.split(",")
try:
    for i, part in enumerate(txt.split("\n#####\n")):
        f = R + "/" + files[min(i, len(files) - 1)]
        old, new = part.split("\n=====\n")
        s = open(f).read()
        assert s.count(old) == 1, ("occurrences", s.count(old), old)
        open(f, "w").write(s.replace(old, new.rstrip("\n") if not old.endswith("\n") else new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh")
    dm = sh("bash %s/demo.sh" % d, cwd=R)
    print("build rc", b.returncode, "demo with patch rc", dm.returncode, (dm.stdout + dm.stderr)[-200:].strip())
    ok = b.returncode == 0 and dm.returncode != 0
    if ok and "notest" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/plant.json"))
        want = base.get("stable") or base.get("passed") or base.get("stable_passing") or base
        have = set(got.get("passed") or got.get("pass") or [])
        miss = [t for t in want if t not in have] if isinstance(want, list) else "?" + str(list(base)[:5])
        print("tests missing:", miss)
        ok = miss == []
    for c in checks.split(","):
        r = sh("bash %s/bin/check %s quick" % (V, c))
        print(c, "rc", r.returncode, [l for l in r.stdout.splitlines() if l.startswith("rejected")][:2])
finally:
    sh("git -C /repo checkout -- .")
dm = sh("bash %s/demo.sh" % d, cwd=R)
print("demo without patch rc", dm.returncode, (dm.stdout + dm.stderr)[-300:].strip())
if not ok or dm.returncode:
    print("NOT A VALID SEED; removing", d)
    sh("rm -r " + d)
