"""setup: compile the overrides and compare them with the pure TLA+ definitions"""
import math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

pure = open(os.path.join(SPEC, "BigRat.tla")).read().replace("MODULE BigRat ", "MODULE BigRatPure ")
assert open(os.path.join(SPEC, "BigRatPure.tla")).read() == pure, "BigRatPure.tla is not the copy of BigRat.tla"
rng = random.Random(SEED)
big = lambda: rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-10**5, 10**5), rng.randint(-10**9, 10**9),
                          rng.randint(-10**24, 10**24), 10**rng.randint(1, 20), -10**8, 9999 * 10**8])
cases = []
for _ in range(300):
    x = Fraction(big(), abs(big()) or 1); y = Fraction(big(), abs(big()) or 3)
    t = rng.uniform(-30, 30) * rng.choice([1, .1, .01])
    cases.append(dict(a=zenc(big()), b=zenc(big()), x=enc(x), y=enc(y), i=rng.randint(-10**6, 10**6),
                      want=dict(add=enc(x + y), mul=enc(x * y)), t=enc(t), sin=enc(math.sin(t)), cos=enc(math.cos(t)),
                      exp=enc(math.exp(t)), sqrt=enc(math.sqrt(abs(t)))))
import json, tempfile
tmp = tempfile.mkdtemp(prefix="selft.")
f = os.path.join(tmp, "c.json")
json.dump(cases, open(f, "w"))
r = tlc("BigRatTest", "BigRatTest.cfg", env={"TRACE_FILE": f}, workers=1)
shutil.rmtree(tmp)
if not r.ok or REJ.search(r.out) or r.distinct != len(cases) + 1:
    print(r.out[-5000:])
    sys.exit("setup: BigRat self-test failed")
print("setup: BigRat overrides agree with the pure definitions on %d cases" % len(cases))
