"""Development harness: apply textual mutations (in memory) to the current sources and run checks on them.

usage: mut.py [PID ...] [--neutral] [-k SUBSTR]
Mutants: tools/mutants/<PID>.py with  M = [(name, file, old, new), ...]   -> the check must report something new
         tools/mutants/neutral.py   with  N = [(name, [(file, old, new), ...]), ...] -> every check must stay quiet
"""
import importlib.util
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsa import core  # noqa
from vsa.program import Program, AnalysisError  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))


def load(p):
    spec = importlib.util.spec_from_file_location("m", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


BASE = None


def base():
    global BASE
    if BASE is None:
        BASE = Program.load(core.REPO).sources
    return BASE


def apply(edits):
    s = dict(base())
    for f, old, new in edits:
        if f not in s:
            f = "vectorbt/" + f
        if s[f].count(old) < 1:
            return None, f"pattern not found in {f}: {old[:60]!r}"
        s[f] = s[f].replace(old, new, 1)
    return s, None


def run(pid, sources):
    import importlib
    mod = importlib.import_module(f"vsa.checks.{pid.lower()}")
    ctx = core.Ctx(pid, "quick", Program(sources))
    try:
        mod.run(ctx)
    except AnalysisError as e:
        return None, f"ERROR {e}"
    kn = {f["key"] for f in core.load_known()["findings"] if f["property"] == pid}
    return [v for v in ctx.violations if v["key"] not in kn], None


def job(a):
    kind, pid, name, edits = a
    s, err = apply(edits)
    if err:
        return kind, pid, name, "BADPATTERN", err
    try:
        vs, err = run(pid, s)
    except Exception as e:
        import traceback
        return kind, pid, name, "CRASH", traceback.format_exc()[-600:]
    if err:
        return kind, pid, name, "ERROR", err
    if vs:
        return kind, pid, name, "CAUGHT", f"{len(vs)}: {vs[0]['where']} {vs[0]['msg'][:110]}"
    return kind, pid, name, "QUIET", ""


def main():
    argv = sys.argv[1:]
    neutral = "--neutral" in argv
    k = argv[argv.index("-k") + 1] if "-k" in argv else None
    pids = [a for a in argv if a[0] == "C" and a[1:].isdigit()]
    if not pids:
        pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "..", "vsa", "checks")) if f.startswith("c"))
    jobs = []
    if neutral:
        for name, edits in load(os.path.join(HERE, "mutants", "neutral.py")).N:
            if k and k not in name:
                continue
            for p in pids:
                jobs.append(("N", p, name, edits))
    else:
        for p in pids:
            mp = os.path.join(HERE, "mutants", f"{p}.py")
            if not os.path.exists(mp):
                continue
            for name, f, old, new in load(mp).M:
                if k and k not in name:
                    continue
                jobs.append(("M", p, name, [(f, old, new)] if isinstance(f, str) else f))
    base()
    bad = 0
    with Pool(8) as pool:
        for kind, pid, name, res, msg in pool.imap(job, jobs):
            good = res == ("QUIET" if kind == "N" else "CAUGHT")
            bad += not good
            if not good or "-v" in argv:
                print(("ok  " if good else "BAD ") + f"{kind} {pid} {name}: {res} {msg}")
    print(f"{len(jobs)} jobs, {bad} bad")


main()
