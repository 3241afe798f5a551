"""Development aid: hand-written refactorings (behaviour kept) applied all at once; every check must stay quiet.

usage: hand.py FILE.py [--write REPO] [-c C05,C10]   FILE: R = [(file rel. to vectorbt/, function or Class.method, old or None, new), ...]
  old None: `new` replaces the whole definition; func "+": `new` goes right after the imports of the module
  --write REPO: only write the edited files into that copy of the repository (to run the tests there)
"""
import ast, importlib, importlib.util, os, sys, textwrap
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import fm
from vsa import core
from vsa.program import Program
SRC = None


def apply(src, func, old, new):
    if func == "+":
        t = ast.parse(src)
        last = [s for s in t.body if isinstance(s, (ast.Import, ast.ImportFrom))][-1].end_lineno
        ls = src.splitlines(keepends=True)
        return "".join(ls[:last]) + "\n\n" + textwrap.dedent(new) + "\n\n" + "".join(ls[last:])
    if old is not None:
        return fm.edit(src, func, old, new)
    body, node = ast.parse(src).body, None
    for p in func.split("."):
        node = [s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p][-1]
        body = node.body
    ls = src.splitlines(keepends=True)
    out = "".join(ls[:node.lineno - 1]) + textwrap.indent(textwrap.dedent(new).strip("\n"), " " * node.col_offset) + "\n" + "".join(ls[node.end_lineno:])
    ast.parse(out)
    return out


def one(pid):
    try:
        ctx = core.Ctx(pid, "quick", Program(SRC))
        importlib.import_module("vsa.checks." + pid.lower()).run(ctx)
    except Exception as e:
        return [f"ERROR {pid} {e!r}"[:300]]
    known = {k["key"] for k in core.load_known()["findings"] if k.get("property") in (pid, None)}
    return [f"ALARM {pid} {x['key']}: {x['msg']}"[:900] for x in ctx.violations if x["key"] not in known] + \
        [f"  unresolved {pid} {u}"[:220] for u in ctx.unresolved if os.environ.get("UNRES")]


def main():
    global SRC
    a = sys.argv[1:]
    sp = importlib.util.spec_from_file_location("m", a[0])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    SRC = dict(Program.load("/repo").sources)
    for f, func, old, new in m.R:
        p = "vectorbt/" + f
        try:
            SRC[p] = apply(SRC[p], func, old, new)
        except Exception as e:
            print("BAD", f, func, repr(e)[:200])
        if "--write" in a:
            open(os.path.join(a[a.index("--write") + 1], p), "w").write(SRC[p])
    if "--write" in a:
        return
    os.environ["VSA_JOBS"] = "1"
    pids = a[a.index("-c") + 1].split(",") if "-c" in a else [f"C{i:02d}" for i in range(1, 28) if i != 26]
    n = 0
    with Pool(int(os.environ.get("J", "6")), maxtasksperchild=1) as p:
        for r in p.imap_unordered(one, pids):
            for x in r:
                n += 1
                print(x, flush=True)
    print("reports:", n)


if __name__ == "__main__":
    main()
