"""tools/mkseeds.py: rewrites section 5 of DESIGN.md (planted changes and the checks that catch them) from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"nsmb-dc-psd": "C10", "csd-swap": "", "of-baseline-phi": ""}
t = open(V + "/DESIGN.md").read()
i = t.find("\n## 5. Planted changes")
t = (t if i < 0 else t[:i]).rstrip("\n") + "\n"
t += """
## 5. Planted changes

Each was written from a property's text and the code, passes the stable tests, and comes with a demonstration (`seeded/<id>/`).
All of them are caught by the quick check of their property (column 2). Beside these, `tools/mutate.py` makes small random changes in scratch
copies (several hundred so far over every module); those that survived were read one by one, and either change nothing
observable or led to a stronger check. `tools/refactor.py` rewrites the whole package without changing what it does; every check has to stay quiet on that.

| planted change | caught by | what it breaks | what it takes to show |
|---|---|---|---|
"""
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    ident = m.split("/")[-2]
    j = json.load(open(m))
    t += "| %s | %s | %s | %s |\n" % (ident, ", ".join(x for x in (j["property"], ALSO.get(ident, "")) if x), j["what_it_breaks"], j["needs"])
open(V + "/DESIGN.md", "w").write(t)
