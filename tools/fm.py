"""Development harness: textual mutations inside one function (in memory), each against the check of its property.

usage: fm.py FILE.py [-k SUBSTR]      FILE: M = [(pid, name, file rel. to vectorbt/, function or Class.method, old, new), ...]
"""
import ast, importlib, importlib.util, os, sys
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsa import core
from vsa.program import Program

BASE = None


def span(src, func):
    tree = ast.parse(src)
    body = tree.body
    parts = func.split(".") if func else []
    node = None
    for p in parts:
        node = next((s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p), None)
        if node is None:
            node = next((s for s in body if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == p), None)
        if node is None:
            return None
        body = getattr(node, "body", [])
    if node is None:
        return 0, len(src)
    ls = src.splitlines(keepends=True)
    if isinstance(node, ast.FunctionDef) and ast.get_docstring(node) is not None:
        return sum(map(len, ls[:node.body[0].end_lineno])), sum(map(len, ls[:node.end_lineno]))
    a = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
    return sum(map(len, ls[:a - 1])), sum(map(len, ls[:node.end_lineno]))


def plain(src):
    """The source without docstrings, one statement per line."""
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n) is not None:
            n.body = n.body[1:] or [ast.Pass()]
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg):
                    a.annotation = None
    return ast.unparse(tree)


def edit(src, func, old, new):
    try:
        return edit_(src, func, old, new)
    except LookupError:
        return edit_(plain(src), func, old, new)


def edit_(src, func, old, new):
    sp = span(src, func)
    if sp is None:
        raise LookupError(f"no function {func}")
    a, b = sp
    k = src.find(old, a, b)
    if k < 0:
        raise LookupError(f"pattern not found in {func}: {old[:70]!r}")
    out = src[:k] + new + src[k + len(old):]
    ast.parse(out)
    return out


def one(m):
    pid, name, f, func, old, new = m[:6]
    src = dict(BASE.sources)
    try:
        p = "vectorbt/" + f
        src[p] = edit(src[p], func, old, new)
        for x in m[6:]:
            src["vectorbt/" + x[0]] = edit(src["vectorbt/" + x[0]], *x[1:])
    except (LookupError, SyntaxError, KeyError) as e:
        return f"BAD    {pid} {name}: {e!r}"
    try:
        ctx = core.Ctx(pid, "quick", Program(src))
        importlib.import_module("vsa.checks." + pid.lower()).run(ctx)
    except Exception as e:
        return f"ERROR  {pid} {name}: {e!r}"[:250]
    known = {k["key"] for k in core.load_known()["findings"] if k.get("property") in (pid, None)}
    v = [x for x in ctx.violations if x["key"] not in known]
    if v:
        return f"caught {pid} {name}: {v[0]['msg'][:110]}"
    return f"MISSED {pid} {name}" + (f" (unresolved: {ctx.unresolved[0][:200]})" if ctx.unresolved else "")


def main():
    global BASE
    a = sys.argv[1:]
    sub = a[a.index("-k") + 1] if "-k" in a else ""
    sp = importlib.util.spec_from_file_location("m", a[0])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    BASE = Program.load("/repo")
    os.environ["VSA_JOBS"] = "1"
    js = [x for x in m.M if sub in x[0] + " " + x[1]]
    st = {}
    with Pool(int(os.environ.get("J", "7")), maxtasksperchild=4) as p:
        for r in p.imap(one, js):
            st[r.split()[0]] = st.get(r.split()[0], 0) + 1
            if not r.startswith("caught") or os.environ.get("ALL"):
                print(r, flush=True)
    print(st)


if __name__ == "__main__":
    main()
