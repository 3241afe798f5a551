"""Development aid: mutate a kernel's AST and see whether the kernel comparison tells the mutant from the original."""
import ast, copy, sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsa.program import Program
from vsa.gated import spec_module
from vsa.kernel import Kernel, Comparer

SW = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
      ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.And: ast.Or, ast.Or: ast.And}


def mutants(fn):
    base = ast.dump(fn)
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(change):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            change(m)
            return c
        if isinstance(n, ast.BinOp) and type(n.op) in SW:
            yield f"{n.lineno}: {ast.unparse(n)[:60]} op", mk(lambda m: setattr(m, "op", SW[type(m.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in SW:
            yield f"{n.lineno}: {ast.unparse(n)[:60]} op", mk(lambda m: setattr(m, "op", SW[type(m.op)]()))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SW:
            yield f"{n.lineno}: {ast.unparse(n)[:60]} cmp", mk(lambda m: m.ops.__setitem__(0, SW[type(m.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            yield f"{n.lineno}: {ast.unparse(n)[:60]} bool", mk(lambda m: setattr(m, "op", SW[type(m.op)]()))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield f"{n.lineno}: const {n.value}", mk(lambda m: setattr(m, "value", m.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield f"{n.lineno}: const {n.value}", mk(lambda m: setattr(m, "value", not m.value))
        if hasattr(n, "body") and isinstance(n.body, list):
            for j, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    def drop(m, j=j):
                        m.body[j] = ast.Pass()
                    yield f"{s.lineno}: drop {ast.unparse(s)[:60]}", mk(drop)


def main():
    prog = Program.load("/repo")
    mod, names = sys.argv[1], sys.argv[2:]
    path = mod.replace(".", "/") + ".py"
    src = prog.sources[path]
    tree = ast.parse(src)
    orig = prog.get(mod)
    for name in names:
        fn = next(s for s in tree.body if isinstance(s, ast.FunctionDef) and s.name == name)
        head = ast.unparse(ast.Module([s for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom))], []))
        k0 = Kernel(prog, prog.require(mod + "." + name))
        st = {True: 0, False: 0, None: 0}
        for d, m in mutants(fn):
            ast.fix_missing_locations(m)
            text = head + f"\nfrom {mod} import *\n" + ast.unparse(m)
            sm = spec_module(prog, "mut", text)
            try:
                t0 = time.time()
                r = Comparer(prog, Kernel(prog, sm.functions[name]), k0).run()
                v = False if any(x[0] is False for x in r) else None if any(x[0] is None for x in r) else True
            except Exception as e:
                v = None
                r = [(None, "", "", repr(e))]
                if os.environ.get("TB"):
                    raise
            st[v] += 1
            if v is not False:
                print(name, v, d, "|", next((x[3][:140] for x in r if x[0] is not True), ""))
        print(name, "caught", st[False], "unknown", st[None], "missed", st[True])


if __name__ == "__main__":
    main()
