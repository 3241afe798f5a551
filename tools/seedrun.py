"""Run the check of each planted bug's property (or all checks with -a) against a scratch copy with the bug applied."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "-a" in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]

def one(d):
    k = os.path.basename(d)
    pid = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run(f"git clone -q /repo {tmp}/r && git -C {tmp}/r apply {d}/patch.diff", shell=True, check=True)
        shutil.copytree(V + "/vsa", tmp + "/v/vsa"); shutil.copy(V + "/known_findings.json", tmp + "/v/")
        out = []
        for p in (checks if ALL else [pid]):
            if p not in checks:
                out.append((p, "unclaimed")); continue
            r = subprocess.run(["python3", "-B", "-m", "vsa", p], cwd=tmp + "/v", env=dict(os.environ, VSA_REPO=tmp + "/r"), capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                out.append((p, "CAUGHT " + r.stdout.splitlines()[0][:170]))
            elif r.returncode == 0:
                if not ALL: out.append((p, "MISSED"))
            else:
                out.append((p, f"ERROR rc={r.returncode} " + (r.stdout + r.stderr)[-300:]))
        return k, pid, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

ds = [d for d in sorted(glob.glob(V + "/seeded/*")) if os.path.exists(d + "/patch.diff") and (not sel or any(s in d for s in sel))]
with ThreadPoolExecutor(7) as ex:
    for k, pid, out in ex.map(one, ds):
        for p, m in out:
            print(f"{k}: {p} {m}", flush=True)
