"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
rows = {}
for d in glob.glob("seeded/*/meta.json"):
    m = json.load(open(d))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
late = {"detected-explicit", "values-contains-type-decayed", "padding-needs-trivial", "mono-equal-by-buffer", "repeat-nontrivial", "timer-moves-one-pointer"}
out = ["<!-- MATRIX -->", "Every bug listed is caught by the check of its property (exit 1, that property's VIOLATION line); those marked * were missed when planted and led to the check being extended.", "",
       "| property | planted bug | what it breaks |", "|---|---|---|"]
for p in sorted(rows):
    for i, m in sorted(rows[p]):
        out.append(f"| {p} | `{i}`{'*' if i in late else ''} | {m['what_it_breaks']} |")
s = open("DESIGN.md").read()
open("DESIGN.md", "w").write(s[:s.index("<!-- MATRIX -->")] + "\n".join(out) + "\n")
