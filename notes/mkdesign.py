"""Assemble DESIGN.md from its parts and the metadata of the planted bugs."""
import glob, json, os, re
n = os.path.dirname(os.path.abspath(__file__)); r = os.path.dirname(n)
rd = lambda f: open(os.path.join(n, f)).read()
kf = open(r + "/known_findings.txt").read()
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(r + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |".replace("\n", " "))
t = rd("design_tail.md")
t = t.replace("{nfixed}", str(len(re.findall(r"^fixed:", kf, re.M)))).replace("{nopen}", str(len(re.findall(r"^open ", kf, re.M))))
t = t.replace("{table}", "\n".join(rows)).replace("{missed}", rd("missed.txt").strip() if os.path.exists(n + "/missed.txt") else "")
t = t.replace("{mutation}", rd("mutation.md").strip())
open(r + "/DESIGN.md", "w").write(rd("design_head.md") + "\n" + rd("design_props.md") + "\n" + t)
