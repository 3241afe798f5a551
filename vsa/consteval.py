"""Static evaluation of declarative configuration: dict displays, dict(...), Config(...), merge_dicts(...), names."""
import ast

from .program import Assign, ClassInfo, FunctionInfo, dotted

CONFIG_CLASSES = {"Config", "AtomicConfig", "SettingsConfig", "dict", "OrderedDict", "atomic_dict", "FrozenConfig"}


class Opaque:
    """A value that is not declarative."""

    def __init__(self, node, module, why=""):
        self.node, self.module, self.why = node, module, why

    def __repr__(self):
        try:
            return f"<{ast.unparse(self.node)[:60]}>"
        except Exception:
            return "<?>"


class Dct(dict):
    """A dict display: values plus the nodes they came from; `open` if some part could not be evaluated."""

    def __init__(self, node=None, module=None):
        super().__init__()
        self.node, self.module, self.open, self.nodes = node, module, False, {}
        self.cls = None         # config class it is wrapped in
        self.opts = {}          # keyword arguments of that class

    def put(self, k, v, node, module):
        self[k] = v
        self.nodes[k] = (node, module)

    def merge(self, other):
        out = Dct(self.node, self.module)
        out.open = self.open or other.open
        out.cls, out.opts = self.cls, self.opts
        for s in (self, other):
            for k, v in s.items():
                if isinstance(v, Dct) and isinstance(out.get(k), Dct):
                    v = out[k].merge(v)
                out.put(k, v, *s.nodes.get(k, (None, None)))
        return out


class ConstEval:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def assign(self, a):
        k = id(a)
        if k not in self.memo:
            self.memo[k] = Opaque(a.value, a.module, "recursive")
            self.memo[k] = self.ev(a.value, a.module)
        return self.memo[k]

    def ev(self, node, module, func=None, env=None):
        e = lambda n: self.ev(n, module, func, env)
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in node.elts:
                if isinstance(x, ast.Starred):
                    v = e(x.value)
                    if isinstance(v, (list, tuple)):
                        out.extend(v)
                    else:
                        return Opaque(node, module)
                else:
                    out.append(e(x))
            return out if isinstance(node, ast.List) else tuple(out)
        if isinstance(node, ast.Dict):
            d = Dct(node, module)
            for k, v in zip(node.keys, node.values):
                if k is None:
                    x = e(v)
                    if isinstance(x, Dct):
                        for kk, vv in x.items():
                            d.put(kk, vv, *x.nodes.get(kk, (v, module)))
                        d.open |= x.open
                    else:
                        d.open = True
                    continue
                kk = e(k)
                try:
                    hash(kk)
                except TypeError:
                    d.open = True
                    continue
                d.put(kk, e(v), v, module)
            return d
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = e(node.operand)
            return -v if isinstance(v, (int, float)) else Opaque(node, module)
        if isinstance(node, ast.BinOp):
            a, b = e(node.left), e(node.right)
            ok = (int, float, str, list, tuple)
            if isinstance(a, ok) and isinstance(b, ok) and not isinstance(a, bool):
                try:
                    if isinstance(node.op, ast.Add):
                        return a + b
                    if isinstance(node.op, ast.Mult):
                        return a * b
                    if isinstance(node.op, ast.Sub):
                        return a - b
                    if isinstance(node.op, ast.Div):
                        return a / b
                except Exception:
                    pass
            return Opaque(node, module)
        if isinstance(node, ast.Subscript):
            v, k = e(node.value), e(node.slice)
            if isinstance(v, Dct):
                try:
                    if k in v:
                        return v[k]
                except TypeError:
                    pass
            elif isinstance(v, (list, tuple)) and isinstance(k, int) and -len(v) <= k < len(v):
                return v[k]
            return Opaque(node, module)
        if isinstance(node, ast.Call):
            return self.call(node, module, func, env)
        if isinstance(node, (ast.Name, ast.Attribute)):
            if env and isinstance(node, ast.Name) and node.id in env:
                return env[node.id]
            ent = self.prog.resolve(node, module, func)
            ent = self.prog.deref(ent) if ent is not None else None
            if isinstance(ent, Assign):
                return self.assign(ent)
            if isinstance(ent, (ClassInfo, FunctionInfo)):
                return ent
            if ent is not None:
                return ent
        return Opaque(node, module)

    def call(self, node, module, func, env):
        e = lambda n: self.ev(n, module, func, env)
        name = dotted(node.func) or ""
        last = name.split(".")[-1]
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy",) and not name.startswith("np."):
            v = e(node.func.value)
            if isinstance(v, (Dct, list)):
                return v
        if isinstance(node.func, ast.Attribute) and node.func.attr == "merge_with" and node.args:
            a, b = e(node.func.value), e(node.args[0])
            if isinstance(a, Dct) and isinstance(b, Dct):
                return a.merge(b)
        if last == "merge_dicts":
            out = None
            for a in node.args:
                v = e(a)
                if not isinstance(v, Dct):
                    return Opaque(node, module)
                out = v if out is None else out.merge(v)
            return out if out is not None else Opaque(node, module)
        if last in CONFIG_CLASSES:
            d = Dct(node, module)
            if last != "dict":
                if node.args:
                    v = e(node.args[0])
                    if isinstance(v, Dct):
                        d = v.merge(Dct())
                        d.node, d.module = v.node, v.module
                    else:
                        d.open = True
                d.cls = last
                d.opts = {k.arg: e(k.value) for k in node.keywords if k.arg}
                return d
            for a in node.args:
                v = e(a)
                if isinstance(v, Dct):
                    for k, x in v.items():
                        d.put(k, x, *v.nodes.get(k, (a, module)))
                    d.open |= v.open
                else:
                    d.open = True
            for k in node.keywords:
                if k.arg is None:
                    v = e(k.value)
                    if isinstance(v, Dct):
                        for kk, x in v.items():
                            d.put(kk, x, *v.nodes.get(kk, (k.value, module)))
                        d.open |= v.open
                    else:
                        d.open = True
                else:
                    d.put(k.arg, e(k.value), k.value, module)
            return d
        return Opaque(node, module)
