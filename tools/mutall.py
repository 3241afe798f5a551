"""Run every mutant file and write tools/mutants/RESULTS.json (caught / tried per property, names of the missed ones)."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by, missed = {}, []
for f in sorted(glob.glob(f"{V}/tools/mutants/*.py")):
    if os.path.basename(f) in ("C10.py",):
        continue
    out = subprocess.run([sys.executable, "-B", f"{V}/tools/fm.py", f], capture_output=True, text=True, env={**os.environ, "ALL": "1"}).stdout
    for l in out.splitlines():
        w = l.split()
        if w and w[0] in ("caught", "MISSED"):
            c, n = by.get(w[1], (0, 0))
            by[w[1]] = (c + (w[0] == "caught"), n + 1)
            if w[0] == "MISSED":
                missed.append(f"{w[1]} “{l.split(None, 2)[2].split(' (unresolved')[0]}”")
        elif w and w[0] in ("BAD", "ERROR"):
            print(os.path.basename(f), l[:200])
json.dump(dict(by=by, missed=missed), open(f"{V}/tools/mutants/RESULTS.json", "w"), indent=1, ensure_ascii=False)
print(sum(c for c, _ in by.values()), "of", sum(n for _, n in by.values()))
