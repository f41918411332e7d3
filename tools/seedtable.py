"""Rewrite the table of seeded changes at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()

rows = ["| change | check | needs | breaks |", "|---|---|---|---|"]
root = os.path.join(HERE, "seeded")
for name in sorted(os.listdir(root)):
    with open(os.path.join(root, name, "meta.json"), encoding="utf-8") as f:
        m = json.load(f)
    rows.append("| %s | %s%s | %s | %s |" % (
        name, m["property"], " (missed)" if name in MISSED else "",
        m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
path = os.path.join(HERE, "DESIGN.md")
with open(path, encoding="utf-8") as f:
    text = f.read()
mark = "<!-- seeds -->"
text = text[:text.index(mark)] + mark + "\n\n" + "\n".join(rows) + "\n"
with open(path, "w", encoding="utf-8") as f:
    f.write(text)
print(len(rows) - 2, "seeds")
