"""Development aid: write a reference file from a reviewed module.  mkref.py vectorbt.x.y [name|Class.method|Class.* ...]"""
import ast, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vsa.program import Program


def strip(f):
    for n in ast.walk(f):
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                a.annotation = None
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
    f.decorator_list = [d for d in f.decorator_list if ast.unparse(d) in ("staticmethod", "classmethod", "class_or_instancemethod")]
    return f


def main():
    mod, names = sys.argv[1], sys.argv[2:]
    p = Program.load("/repo")
    if mod == "--names":
        names = sorted(f.qualname for f in p.all_functions())
        open(os.path.join(V, "vsa", "ref", "_names.txt"), "w").write("\n".join(names) + "\n")
        print(len(names))
        return
    m = p.modules[mod]
    tree = ast.parse(m.src)
    out = [f'"""Reviewed reference definitions of {mod} (functions as name__ref, methods as name__of__Class)."""']
    own = []
    body = []
    for s in tree.body:
        if isinstance(s, ast.Try):
            body += s.body + [x for h in s.handlers for x in h.body] + s.orelse
        else:
            body.append(s)
    for s in body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            if s in tree.body:
                out.append(ast.unparse(s))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            own.append(s.name)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            own += [t.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)]
    if own:
        out.append(f"from {mod} import " + ", ".join(dict.fromkeys(o for o in own if not o.startswith("__"))))
    n = 0

    def decl(s, cls=None):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
        if len(ts) != 1 or not isinstance(ts[0], ast.Name) or ts[0].id.startswith("__"):
            return
        x, v = ts[0].id, ast.unparse(s.value)
        if x.endswith("T") or "tp." in v or "TypeVar" in v or "getLogger" in v or "NOT_FOUND" in x:
            return
        nm = f"{x}__decl__of__{cls}" if cls else x + "__decl"
        if names and not (cls and f"{cls}.*" in names or (f"{cls}.{x}" if cls else x) in names):
            return
        out.extend(["", "", f"def {nm}():\n    return {v}"])
    for s in tree.body:
        decl(s)
        if isinstance(s, ast.FunctionDef) and (not names or s.name in names):
            s.name += "__ref"
            out += ["", "", ast.unparse(strip(s))]
            n += 1
        elif isinstance(s, ast.ClassDef):
            for f in s.body:
                decl(f, s.name)
                if isinstance(f, ast.FunctionDef) and (not names or f"{s.name}.{f.name}" in names or f"{s.name}.*" in names):
                    f.name = f"{f.name}__of__{s.name}"
                    out += ["", "", ast.unparse(strip(f))]
                    n += 1
    open(os.path.join(V, "vsa", "ref", mod.replace("vectorbt.", "") + ".py"), "w").write("\n".join(out) + "\n")
    print(mod, n)


main()
