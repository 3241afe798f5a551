"""Build and confirm planted bugs in scratch copies.

usage: plant.py [-f] [-t] ID...      (specs: tools/plants/<PID>.py with PLANTS = {id: dict(edits=[(file, old, new)], demo=..., needs=..., breaks=...)})
  -f rewrite even if present, -t also run the stable test suite against the patched scratch copy
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR=$scratch/numba MPLCONFIGDIR=$scratch/mpl PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg SCRATCH=$scratch
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -B -W ignore "$here/demo.py"
'''

def specs():
    out = {}
    for p in sorted(glob.glob(os.path.join(V, "tools", "plants", "*.py"))):
        sp = importlib.util.spec_from_file_location("m", p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for k, d in m.PLANTS.items():
            d["property"] = d.get("pid") or os.path.basename(p)[:-3]
            out[k] = d
    return out

def sh(cmd, cwd=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def build(k, d, tests=False):
    sd = os.path.join(V, "seeded", k)
    tmp = tempfile.mkdtemp(prefix=f"plant_{k}_", dir="/tmp")
    try:
        cp = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {cp}")
        for f, old, new in d["edits"]:
            p = os.path.join(cp, "vectorbt", f)
            s = open(p).read()
            if s.count(old) < 1:
                return f"{k}: pattern not found in {f}: {old[:60]!r}"
            if s.count(old) > 1 and not d.get("first"):
                return f"{k}: pattern ambiguous ({s.count(old)}) in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new, 1))
        rc, diff = sh("git diff", cp)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(d["demo"].lstrip("\n"))
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(sd, "meta.json"), "w"), indent=1)
        rc1, o1 = sh(f"bash {sd}/demo.sh", cp)
        sh("git checkout -q -- .", cp)
        rc0, o0 = sh(f"bash {sd}/demo.sh", cp)
        msg = f"{k}: clean rc={rc0} patched rc={rc1}"
        ok = rc0 == 0 and rc1 != 0
        if not ok:
            msg += f"\n--- clean\n{o0[-1500:]}\n--- patched\n{o1[-1500:]}"
        else:
            msg += "  " + (o1.strip().splitlines() or [""])[-1][:150]
        if tests and ok:
            sh(f"git apply {sd}/patch.diff", cp)
            env = f"export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:$PATH TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg NUMBA_CACHE_DIR={tmp}/numba MPLCONFIGDIR={tmp}/mpl PYTHONPATH={cp};"
            sh(env + f"cd {cp} && /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --timeout=600 --continue-on-collection-errors -W ignore --tb=short -o junit_family=xunit2 --junitxml={tmp}/junit.xml", timeout=2400)
            sh(f"python3 /opt/vp/results.py {tmp}/out.json junit:{tmp}/junit.xml")
            base = json.load(open("/opt/vp/BASELINE.json"))
            msg += "\n   tests: " + compare(base, json.load(open(f"{tmp}/out.json")))
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def names(j, key):
    v = j.get(key)
    return set(v) if v else set()

def compare(base, out):
    stable = names(base, "stable")
    passed = names(out, "passed")
    miss = stable - passed
    return f"{len(stable)} stable, {len(miss)} not passing {sorted(miss)[:4]}"

if __name__ == "__main__":
    av = sys.argv[1:]
    sp = specs()
    ids = [a for a in av if not a.startswith("-")] or [k for k in sp if "-f" in av or not os.path.exists(os.path.join(V, "seeded", k))]
    ids = [k for a in ids for k in sp if k == a or sp[k]["property"] == a]
    if "-t" in av:
        for k in ids:
            print(build(k, sp[k], True), flush=True)
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            for m in ex.map(lambda k: build(k, sp[k]), ids):
                print(m, flush=True)
