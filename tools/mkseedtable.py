"""Write the table of seeded changes into DESIGN.md from seeded/*/meta.json (the check that catches each is its property's)."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
one = lambda t: " ".join(t.split()).replace("|", "\\|")
rows = []
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[1], m["property"], one(m["what_it_breaks"]), one(m["needs"])))
d = open("DESIGN.md").read()
head, mark, _ = d.partition("| seed |")
open("DESIGN.md", "w").write(head + "| seed | property, and check that reports it | what it breaks | what it takes |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows), "seeds")
