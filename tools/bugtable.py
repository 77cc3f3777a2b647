"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (ids are PROPERTY-letter)."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
by = {}
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    by.setdefault(d["property"], []).append((m.parent.name, d))
out = ["| check | planted bugs it catches (what they need) |", "|---|---|"]
for p, l in sorted(by.items()):
    c = "; ".join("**%s** %s" % (i, re.sub(r"\s+", " ", d["needs"]).replace("|", "/").rstrip(".")) for i, d in l)
    out.append("| %s | %s |" % (p, c))
t = (root / "DESIGN.md").read_text()
a, b = t.index("<!-- table -->"), t.index("<!-- end -->")
(root / "DESIGN.md").write_text(t[:a] + "<!-- table -->\n" + "\n".join(out) + "\n" + t[b:])
