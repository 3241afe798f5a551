"""Development aid: run a check against AST mutants of given functions.  cmut.py PID path func [func...]"""
import ast, importlib, io, os, sys, contextlib
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vsa import kernel
from vsa.core import Ctx, load_known
from vsa.program import Program
from kmut import mutants

BASE = None
KNOWN = {f["key"] for f in load_known()["findings"]}


def one(job):
    pid, path, name, desc, text = job
    if os.environ.get('ONLY'):
        kernel.ONLY = {name.split('.')[-1]}
    src = dict(BASE.sources)
    src[path] = text
    try:
        prog = Program(src)
        prog.root = getattr(BASE, "root", None)
        for k, v in BASE.__dict__.items():
            if k not in prog.__dict__:
                prog.__dict__[k] = v
        ctx = Ctx(pid, "quick", prog)
        importlib.import_module("vsa.checks." + pid.lower()).run(ctx)
        ctx.violations = [v for v in ctx.violations if v["key"] not in KNOWN]
        return (name, desc, len(ctx.violations), len(ctx.unresolved), ctx.violations[0]["msg"][:150] if ctx.violations else "")
    except Exception as e:
        return (name, desc, -1, 0, repr(e)[:150])


def main():
    global BASE
    pid, path, names = sys.argv[1], sys.argv[2], sys.argv[3:]
    BASE = Program.load("/repo")
    src = BASE.sources[path]
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    jobs = []
    for st in ast.walk(tree):
        if isinstance(st, ast.FunctionDef) and st.name in names:
            a = min([st.lineno] + [d.lineno for d in st.decorator_list])
            for d, m in mutants(st):
                ast.fix_missing_locations(m)
                ind = " " * st.col_offset
                body = "\n".join(ind + l if l else l for l in ast.unparse(m).splitlines()) + "\n"
                jobs.append((pid, path, st.name, d, "".join(lines[:a - 1]) + body + "".join(lines[st.end_lineno:])))
    st = {}
    with Pool(int(os.environ.get("J","7"))) as p:
        for name, d, v, u, msg in p.imap(one, jobs):
            k = "caught" if v > 0 else "error" if v < 0 else "missed"
            st.setdefault(name, {}).setdefault(k, 0)
            st[name][k] += 1
            if k != "caught" or os.environ.get("ALL"):
                print(f"{name} {k} {d} unresolved={u} {msg}", flush=True)
    print(st)


if __name__ == "__main__":
    main()
