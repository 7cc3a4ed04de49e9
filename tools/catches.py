"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", name, "meta.json")) as handle:
        meta = json.load(handle)
    lines.append(f"| {name} | {meta['property']} | {meta['needs'].replace('|', '/')} | {meta.get('caught', meta['property'])} |")
path = os.path.join(root, "DESIGN.md")
with open(path) as handle:
    text = handle.read()
text = text[: text.index("| planted bug |")] + "\n".join(lines) + "\n"
with open(path, "w") as handle:
    handle.write(text)
