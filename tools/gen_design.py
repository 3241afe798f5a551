"""Fill the tables of DESIGN.md from known_findings.json, seeded/ and tools/mutants/RESULTS.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(f"{V}/known_findings.json"))
s = open(f"{V}/tools/DESIGN.in.md").read()
fx = []
for x in k["fixed"]:
    pid, sha, what = x.replace("fixed: property=", "").split(" ", 2)
    fx.append((pid, sha, what))
s = s.replace("@FIXED@", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {a} | {b} | {c} |".replace("||", "\\|\\|") for a, b, c in sorted(fx)))
s = s.replace("@FINDINGS@", "\n".join(f"* {x['property']} `{x['key']}` — {x['what']}" for x in k["findings"]))
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = s.replace("@SEEDED@", "Seeded bugs; each is caught by the check of the property named:\n\n| id | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
r = f"{V}/tools/mutants/RESULTS.json"
t = ""
if os.path.exists(r):
    res = json.load(open(r))
    t = "Function-level mutants (caught / tried by the check of their property):\n\n| property | caught | tried |\n|---|---|---|\n" + \
        "\n".join(f"| {p} | {c} | {n} |" for p, (c, n) in sorted(res["by"].items())) + \
        f"\n\nMissed ones, kept in the files: {', '.join(res['missed'])}."
s = s.replace("@MUTANTS@", t)
open(f"{V}/DESIGN.md", "w").write(s)
