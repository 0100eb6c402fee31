"""python3 tools/table.py: the table of planted changes at the end of DESIGN.md (results in tools/caught.json: id -> what the check said)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), c.get(d, "not run")))
t = open(V + "/DESIGN.md").read()
h = "## Planted bugs\n"
t = t[:t.index(h)] + h + '''
Made with `tools/plant.py` from the text of the properties and the code, each compiled, passing the tests and failing its own demonstration.
`tools/mutants.py` makes mechanical mutants in addition (survey of missed ones; no result of it is kept here).

| id | property | what it breaks | found by the property's check in the run |
|---|---|---|---|
''' + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(t)
