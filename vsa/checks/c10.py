"""C10: protections of configurations.

For every operation a configuration offers (every method reachable through the class hierarchy plus every mutating
operation of the built-in dict it derives from) the reachable raw mutations are computed by interprocedural conditional
constant propagation, specialised to each combination of (read-only, frozen, forced).  No raw mutation of the object may
be reachable when it is protected; attribute view and reset copy must be kept in step on every path.
"""
import ast

from ..program import AnalysisError, Assign, ClassInfo, Ext, FunctionInfo, dotted
from ..terms import C, NONE, P, T, TermFlow, cval, leaves, subterms
from ..flow import State
from .scope import everywhere, mentions, python

TECHNIQUE = "typestate/effect analysis: interprocedural conditional constant propagation over protection flags"
LEVEL_NOTE = 'Every operation reachable on a configuration (own, inherited, built-in dict) is evaluated for each protection state; no raw mutation reachable when protected. Assumes dict mutators are those of Python 3.12.'

MUTATORS = {  # mutating operations of the built-in dict: kind of raw effect
    "__setitem__": "set", "setdefault": "set", "update": "set", "__ior__": "set",
    "__delitem__": "del", "pop": "del", "popitem": "del", "clear": "del",
}
FLAGS = ("_readonly_", "_frozen_keys_")
SELF = P("self")


class ConfigFlow(TermFlow):
    def __init__(self, prog, cls, env, has_key, nested_cfg=False):
        super().__init__(prog, inline=self._inline)
        self.cls, self.env, self.has_key, self.nested_cfg = cls, env, has_key, nested_cfg
        self.raw = []           # (kind, name, args, loc, order)
        self.raises_seen = []
        self.dict_stores = []
        self.dict_dels = []
        self.order = 0
        self.top = True

    def _inline(self, callee, rec, depth):
        if callee.cls is not None and self.cls.is_subclass(callee.cls.qualname):
            return True
        if callee.cls is not None or not any(c.module is callee.module for c in self.cls.mro()):
            return False
        ts = list(rec.args) + list(rec.kwargs.values())
        return any(t is SELF or (t.kind == "i" and t.args[0] is SELF) for t in ts) and \
            callee.name not in ("copy_dict", "merge_dicts", "convert_to_dict")

    def s_Raise(self, s, st, fr):
        self.raises_seen.append(fr.fi.loc(s))
        return super().s_Raise(s, st, fr)

    def attr(self, b, name, st, fr):
        key = T("a", b, name)
        if b is SELF and key not in st.heap:
            m = self.cls.lookup(name)
            if m is not None and m.is_property and m not in self.stack:
                saved = self.calls
                self.calls = {}
                self.stack.append(m)
                s2 = State({m.params[0].name: SELF}, dict(st.heap))
                ifr = self.run(m, s2)
                self.stack.pop()
                self.calls = saved
                return self.ret(ifr)
        return super().attr(b, name, st, fr)

    def compare(self, op, a, b):
        if op in ("in", "not in") and self.is_self_view(b) and self.has_key is not None:
            return C(self.has_key == (op == "in"))
        return super().compare(op, a, b)

    @staticmethod
    def is_self_view(t):
        if t is SELF:
            return True
        return t.kind == "f" and t.args[0].kind == "a" and t.args[0].args[0] is SELF and t.args[0].args[1] == "keys"

    def call_hook_(self, rec, st, fr):
        e = rec.callee
        nm = e.name if isinstance(e, Ext) else ""
        if nm == "builtins.isinstance" and len(rec.args) == 2:
            k = rec.args[1]
            kinds = k.args if k.kind == "tup" else [k]
            if rec.args[0] is SELF:
                ok = any(x.kind == "g" and isinstance(x.args[0], ClassInfo) and self.cls.is_subclass(x.args[0].qualname)
                         or x.kind == "g" and isinstance(x.args[0], Ext) and x.args[0].name == "builtins.dict" for x in kinds)
                return C(ok)
            if rec.args[0].kind == "i" and rec.args[0].args[0] is SELF:
                # an item of the configuration: a plain dict (or a configuration)
                for x in kinds:
                    if x.kind == "g" and isinstance(x.args[0], Ext) and x.args[0].name == "builtins.dict":
                        return C(True)
                    if x.kind == "g" and isinstance(x.args[0], ClassInfo) and x.args[0].name == self.cls.name:
                        return C(self.nested_cfg)
        name, target = None, None
        if nm.startswith("builtins.dict.") and rec.args:
            name, target = nm.split(".")[-1], rec.args[0]
        elif rec.func.kind == "a" and rec.func.args[0].kind == "f" and rec.func.args[0].args[0].kind == "g" and \
                getattr(rec.func.args[0].args[0].args[0], "name", "") == "builtins.super" and not isinstance(e, FunctionInfo):
            name, target = rec.func.args[1], SELF
        if name in MUTATORS and target is SELF:
            self.order += 1
            self.raw.append((MUTATORS[name], name, rec, rec.loc(), self.order))
        elif rec.func.kind == "a" and rec.func.args[0].kind == "i" and rec.func.args[0].args[0] is SELF and \
                rec.func.args[1] in MUTATORS:
            self.raw.append(("nested", rec.func.args[1], rec, rec.loc(), self.order))
        if rec.func.kind == "a" and rec.func.args[0] is SELF and rec.func.args[1] in ("keys", "items", "copy", "__iter__") or \
                isinstance(rec.callee, Ext) and rec.args and rec.args[0] is SELF and rec.callee.name.startswith(("builtins.", "copy.", "itertools.")) and \
                rec.callee.name.split(".")[-1] in ("list", "tuple", "set", "frozenset", "sorted", "iter", "copy", "keys", "items", "dict", "__iter__"):
            self.order += 1
            self.keys_order = getattr(self, "keys_order", self.order)
        # mutating the attribute dictionary as a whole
        if rec.func.kind == "a" and rec.func.args[0] is T("a", SELF, "__dict__") and rec.func.args[1] in MUTATORS:
            self.dict_stores.append((None, None, rec.loc()))
        return None

    def call_result(self, rec, st, fr):
        r = self.call_hook_(rec, st, fr)
        if r is not None:
            return r
        if isinstance(rec.callee, FunctionInfo) and rec.callee in self.stack and rec.callee.name != "copy_dict" and any(
                t.kind == "i" and t.args[0] is SELF for t in list(rec.args) + list(rec.kwargs.values())):
            # the same operation applied to a dict held by the configuration
            self.raw.append(("nested", rec.callee.name, rec, rec.loc(), self.order))
        return super().call_result(rec, st, fr)

    def on_store(self, target, base, value, st, fr):
        if isinstance(target, ast.Subscript) and base is T("a", SELF, "__dict__"):
            k = self.quiet(target.slice, st, fr)
            self.dict_stores.append((k, value, fr.fi.loc(target)))
        elif isinstance(target, ast.Subscript) and base is SELF:
            self.call_dunder("__setitem__", [self.quiet(target.slice, st, fr), value], st, fr, target)
        elif isinstance(target, ast.Subscript) and base.kind == "i" and base.args[0] is SELF:
            self.raw.append(("nested", "__setitem__", None, fr.fi.loc(target), self.order))

    def call_dunder(self, name, args, st, fr, node):
        m = self.cls.lookup(name)
        if m is None:
            self.order += 1
            self.raw.append((MUTATORS[name], name, None, fr.fi.loc(node), self.order))
            return
        self.call(node, T("a", SELF, name), args, {}, [], st, fr)

    def on_delete(self, t, st, fr):
        if isinstance(t, ast.Subscript):
            b = self.quiet(t.value, st, fr)
            if b is SELF:
                self.call_dunder("__delitem__", [self.quiet(t.slice, st, fr)], st, fr, t)
            elif b is T("a", SELF, "__dict__"):
                self.dict_dels.append((fr.fi.loc(t), self.quiet(t.slice, st, fr)))
        super().on_delete(t, st, fr)

    def augassign(self, s, st, fr):
        super().augassign(s, st, fr)


def run_method(prog, cls, m, readonly, frozen, force, has_key, as_attrs=True, nested_cfg=False):
    fl = ConfigFlow(prog, cls, None, has_key, nested_cfg)
    st = fl.init_state(m)
    st.vars[m.params[0].name] = SELF
    if force is not None and m.param("force") is not None:
        st.vars["force"] = C(force)
    for k, v in (("_readonly_", readonly), ("_frozen_keys_", frozen), ("_as_attrs_", as_attrs), ("_nested_", True)):
        st.heap[T("a", SELF, k)] = C(v)
    fl.stack.append(m)
    fr = fl.run(m, st)
    fl.stack.pop()
    return fl, fr


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "the configuration classes and their helpers are as reviewed")
    cls = prog.require("vectorbt.utils.config.Config")
    ctx.need(isinstance(cls, ClassInfo), "Config is not a class")
    ctx.rule("override", "every mutating operation of the built-in dict is overridden by the configuration class")
    ctx.rule("readonly", "no raw mutation of items or attributes is reachable in a read-only configuration unless forced")
    ctx.rule("frozen", "no key can be added or removed in a frozen configuration unless forced")
    ctx.rule("effective", "an unprotected or forced operation does reach the mutation it is named after")
    ctx.rule("reports", "an operation refused by a protection raises")
    ctx.rule("attrs", "every item change is mirrored in the attribute view on every path")
    ctx.rule("flags", "protection flags are written only by construction and whole-object loading, each from its own argument")
    ctx.rule("reset", "the reset state is an independent copy and reset reinstates exactly it")
    ctx.rule("raw", "raw dict mutators are applied to a configuration nowhere outside the class")

    variants = [c for c in prog.subclasses(cls.qualname)]
    ctx.at_least("configuration classes", len(variants), 1)
    for c in variants:
        check_class(ctx, prog, c, base=c is cls)
    check_init(ctx, prog, cls)
    check_reset(ctx, prog, cls)
    check_raw(ctx, prog, cls)
    words = mentions("readonly", "frozen_keys", "Config", "AtomicConfig", "reset_dct", "as_attrs", "configure")
    python(ctx, "reviewed", {**everywhere(words, ("messaging.telegram",)), "utils.config": "*", "_settings": "*", "utils.template": "*", "utils.checks": "*"}, 40)


EXEMPT = {"__init__", "__new__", "load_update", "__setstate__", "__reduce__"}


def check_class(ctx, prog, cls, base):
    for name in MUTATORS:
        m = cls.lookup(name)
        if m is None:
            ctx.violate("override", f"{cls.name}.{name}", cls.loc(),
                        f"'{name}' is inherited from the built-in dict and bypasses the protections of {cls.name}")
        else:
            ctx.ok("override")
    methods = {}
    for c in cls.mro():
        for n, m in c.methods.items():
            methods.setdefault(n, m)
    for n, m in sorted(methods.items()):
        if n in EXEMPT or m.is_static or m.has_decorator("classmethod") or not m.params:
            continue
        if not base and n not in cls.methods and not any(x in cls.methods for x in MUTATORS):
            continue        # behaves as in the base class
        ctx.unit(m.short)
        own = f"{cls.name}.{n}"
        hf = m.param("force") is not None
        # read-only
        for hk in (False, True):
            for frozen in (False, True):
                fl, fr = run_method(prog, cls, m, True, frozen, False if hf else None, hk)
                bad = [r for r in fl.raw]
                st = [s for s in fl.dict_stores if not allowed_store(s)]
                if n == "copy":
                    pass
                for kind, rn, rec, loc, _ in bad:
                    ctx.violate("readonly", f"{own}:{rn}", loc,
                                f"{own} reaches raw {'mutation of a nested dict' if kind == 'nested' else rn} although the configuration is read-only")
                for s in st:
                    ctx.violate("readonly", f"{own}:attr", s[2], f"{own} writes the attribute view of a read-only configuration")
                if n in ("reset", "make_checkpoint") and fl.dict_stores:
                    ctx.violate("readonly", f"{own}:reset", fl.dict_stores[0][2], f"{own} changes the reset state of a read-only configuration")
                if not bad and not st:
                    ctx.ok("readonly")
                if n in MUTATORS and not hk and not fl.raises_seen:
                    ctx.violate("reports", f"{own}:readonly", m.loc(), f"{own} on a read-only configuration never raises")
                elif n in MUTATORS:
                    ctx.ok("reports")
        # frozen
        if n != "reset":
            for hk in (False, True):
                fl, fr = run_method(prog, cls, m, False, True, False if hf else None, hk)
                for kind, rn, rec, loc, _ in fl.raw:
                    if kind == "del" or (kind == "set" and not hk):
                        ctx.violate("frozen", f"{own}:{rn}", loc, f"{own} reaches raw {rn} ({'adds a new' if kind == 'set' else 'removes a'} key) although the keys are frozen")
                    else:
                        ctx.ok("frozen")
                if not fl.raw:
                    ctx.ok("frozen")
                if n in MUTATORS and not hk and not fl.raises_seen:
                    ctx.violate("reports", f"{own}:frozen", m.loc(), f"{own} on a frozen configuration never raises")
                if n in MUTATORS and MUTATORS[n] == "set" and hk and n != "setdefault" and not any(r[0] == "set" for r in fl.raw):
                    ctx.violate("effective", f"{own}:frozen-existing", m.loc(), f"{own} cannot change an existing key of a frozen configuration")
        # permissive
        if n in MUTATORS:
            combos = [(False, False, False, False), (False, False, False, True)]
            if hf:
                combos += [(True, True, True, False), (True, True, True, True)]
            for ro, frz, force, hk in combos:
                if n == "setdefault" and hk:
                    continue
                fl, fr = run_method(prog, cls, m, ro, frz, force if hf else None, hk)
                want = MUTATORS[n]
                if not any(r[0] == want for r in fl.raw):
                    ctx.violate("effective", f"{own}:{ro}{frz}{force}", m.loc(),
                                f"{own} ({'forced' if force else 'unprotected'}) never changes the items")
                else:
                    ctx.ok("effective")
                attrs_rule(ctx, prog, cls, m, own, want, fl, fr)


def allowed_store(s):
    k = s[0]
    return k is not None and k.kind == "c" and cval(k) == "_reset_dct_"


def attrs_rule(ctx, prog, cls, m, own, want, fl, fr):
    if want == "set":
        bad = False
        for kind, rn, rec, loc, _ in fl.raw:
            if kind != "set" or rec is None or rn != "__setitem__":
                if kind == "set" and rn != "__setitem__":
                    ctx.unknown(loc, f"{own}: attribute mirroring of raw {rn} not modelled")
                continue
            if len(rec.args) < 2:
                ctx.unknown(loc, f"{own}: arguments of the raw {rn} not recognised")
                continue
            k, v = rec.args[-2], rec.args[-1]
            if not any(s[0] is k and s[1] is v for s in fl.dict_stores):
                ctx.violate("attrs", f"{own}:set", loc, f"{own} stores an item without storing the attribute of the same key and value")
                bad = True
        if not bad:
            ctx.ok("attrs")
        # with attribute view off no attribute is written
        fl2, _ = run_method(prog, cls, m, False, False, None, False, as_attrs=False)
        for s in fl2.dict_stores:
            if not allowed_store(s):
                ctx.violate("attrs", f"{own}:noattr", s[2], f"{own} writes attributes although attribute access is disabled")
    else:
        if not fl.dict_dels:
            ctx.violate("attrs", f"{own}:del", m.loc(), f"{own} removes items without removing their attributes")
        else:
            for loc, k in fl.dict_dels:
                part = [t for t in subterms(k) if t.kind == "i" and t.args[1].kind in ("sl", "c")]
                if part:
                    ctx.violate("attrs", f"{own}:partial", loc, f"{own} removes attributes of only a part of the removed keys ({part[0]})")
                else:
                    ctx.ok("attrs")
        raws = [r[4] for r in fl.raw if r[0] == "del"]
        ko = getattr(fl, "keys_order", None)
        if any(r[1] in ("pop", "popitem", "clear") for r in fl.raw) and ko is not None and raws and ko > min(raws):
            ctx.violate("attrs", f"{own}:order", m.loc(), f"{own} collects the keys only after they were removed")


def check_init(ctx, prog, cls):
    init = cls.lookup("__init__")
    ctx.need(init is not None, "Config.__init__ not found")
    ctx.unit(init.short)
    fl = TermFlow(prog, inline=lambda c, r, d: c.outer is not None)
    st = fl.init_state(init)
    stores = {}

    class F(TermFlow):
        def on_store(self, target, base, value, st, fr):
            if isinstance(target, ast.Subscript):
                k = self.quiet(target.slice, st, fr)
                if base is T("a", SELF, "__dict__") and k.kind == "c":
                    stores.setdefault(cval(k), []).append((value, fr.fi.loc(target)))
            elif isinstance(target, ast.Attribute) and base is SELF:
                stores.setdefault(target.attr, []).append((value, fr.fi.loc(target)))
    fl = F(prog, inline=lambda c, r, d: False)
    fl.analyze(init)
    dcts = []
    for rec in fl.calls.values():
        if isinstance(rec.callee, Ext) and rec.callee.name == "builtins.dict.__init__":
            dcts.append(rec)
    pn = [p.name for p in init.params if p.name not in ("self", "dct")]
    ctx.at_least("configuration options", len(pn), 5)
    for p in pn:
        key = f"_{p}_"
        if key not in stores:
            ctx.violate("flags", f"init:{p}", init.loc(), f"option '{p}' is not stored by the constructor")
            continue
        for v, loc in stores[key]:
            others = {q for q in pn if q != p} & leaves(v)
            # copy_kwargs/reset_dct_copy_kwargs legitimately derive from other options
            if p not in leaves(v) and not consts_named(v, p):
                ctx.violate("flags", f"init:{p}", loc, f"'{key}' is stored from something other than option '{p}'")
            elif p in ("readonly", "frozen_keys", "nested", "convert_dicts") and others:
                ctx.violate("flags", f"init:{p}:mixed", loc, f"'{key}' depends on option(s) {sorted(others)}")
            else:
                ctx.ok("flags")
        # property reads the same slot
        prop = cls.lookup(p + "_")
        if prop is None or not prop.is_property:
            ctx.violate("flags", f"prop:{p}", cls.loc(), f"no property '{p}_'")
        else:
            f2 = TermFlow(prog)
            r = f2.ret(f2.analyze(prop))
            if r is not T("a", SELF, key):
                ctx.violate("flags", f"prop:{p}", prop.loc(), f"property '{p}_' does not return '{key}'")
            else:
                ctx.ok("flags")
    # flags written elsewhere
    for c in prog.subclasses(cls.qualname):
        for n, m in c.methods.items():
            if n == "__init__":
                continue
            hits = []

            class G(TermFlow):
                def on_store(self, target, base, value, st, fr):
                    k = None
                    if isinstance(target, ast.Subscript) and base is T("a", SELF, "__dict__"):
                        kt = self.quiet(target.slice, st, fr)
                        k = cval(kt) if kt.kind == "c" else None
                    if isinstance(k, str) and k.startswith("_") and k.endswith("_") and k != "_reset_dct_":
                        hits.append((k, fr.fi.loc(target)))
            G(prog).analyze(m)
            for k, loc in hits:
                ctx.violate("flags", f"{c.name}.{n}:{k}", loc, f"{c.name}.{n} overwrites '{k}'")
            if not hits:
                ctx.ok("flags")


def consts_named(v, p):
    return any(t.kind == "c" and t.args[1] == p for t in subterms(v))


def copied(v):
    """Term is the result of a copying call."""
    if v.kind == "phi":
        return all(copied(x) for x in v.args[0])
    return v.kind == "f" and v.args[0].kind == "g" and getattr(v.args[0].args[0], "name", "").split(".")[-1] in ("copy_dict", "copy", "deepcopy", "merge_dicts")


def check_reset(ctx, prog, cls):
    """Writers of _reset_dct_ store a copy; reset puts the reset state back."""
    for n in ("__init__", "copy", "reset", "make_checkpoint"):
        m = cls.lookup(n)
        if m is None:
            raise AnalysisError(f"Config.{n} not found")
        ctx.unit(m.short)
        stores = []

        class F(TermFlow):
            def on_store(self, target, base, value, st, fr):
                if isinstance(target, ast.Subscript) and base.kind == "a" and base.args[1] == "__dict__":
                    k = self.quiet(target.slice, st, fr)
                    if k.kind == "c" and cval(k) == "_reset_dct_":
                        stores.append((value, fr.fi.loc(target)))
        fl = F(prog, inline=lambda c, r, d: c.cls is not None and c.cls is cls and c.name not in ("__copy__", "clear", "update", "merge_with") and not c.is_property)
        fl.analyze(m)
        for v, loc in stores:
            if not copied(v):
                ctx.violate("reset", f"{n}:nocopy", loc, f"Config.{n} stores a reset state that is not an independent copy")
            else:
                ctx.ok("reset")
            subs = list(subterms(v))
            reads_reset = any(t.kind == "a" and t.args[1] in ("reset_dct_", "_reset_dct_") for t in subs)
            reads_self = any(t.kind == "dict" and SELF in t.args[1:] for t in subs) or any(
                t.kind == "f" and SELF in t.args[1] for t in subs)
            if n == "reset" and not reads_reset:
                ctx.violate("reset", f"{n}:source", loc, "the state kept for the next reset does not come from the reset state")
            if n == "copy" and not reads_reset:
                ctx.violate("reset", f"{n}:source", loc, "copying replaces the reset state by something else")
            if n == "make_checkpoint" and not reads_self:
                ctx.violate("reset", f"{n}:source", loc, "the checkpoint does not come from the current items")
        if n in ("reset", "make_checkpoint", "__init__") and not stores:
            ctx.violate("reset", f"{n}:missing", m.loc(), f"Config.{n} does not store the reset state")
        if n == "reset":
            recs = list(fl.calls.values())
            ups = [r for r in recs if r.func.kind == "a" and r.func.args[0] is SELF and r.func.args[1] == "update"]
            clr = [i for i, r in enumerate(recs) if r.func.kind == "a" and r.func.args[0] is SELF and r.func.args[1] == "clear"]
            good = [r for r in ups if r.args and any(t.kind == "a" and t.args[1] in ("reset_dct_", "_reset_dct_") for t in subterms(r.args[0]))]
            if not good:
                ctx.violate("reset", "reset:items", m.loc(), "reset does not put the reset state back into the items")
            elif not clr:
                ctx.violate("reset", "reset:clear", m.loc(), "reset does not remove the items that are not part of the reset state")
            else:
                ctx.ok("reset")
                items = [r.args[0] for r in good]
                if any(v is it for v, _ in stores for it in items):
                    ctx.violate("reset", "reset:alias", m.loc(), "after a reset the items and the reset state share the same containers")
                for r in good:
                    nst = r.kwargs.get("nested")
                    if nst is None or nst.kind == "c" and cval(nst):
                        pass
    # shallow and deep copy carry the whole attribute dictionary and the items
    for n in ("__copy__", "__deepcopy__"):
        m = cls.lookup(n)
        if m is None:
            ctx.violate("reset", f"{n}:missing", cls.loc(), f"Config.{n} is not defined, so protections are not copied")
            continue
        ctx.unit(m.short)
        stores, upd = [], []

        class F(TermFlow):
            def on_store(self, target, base, value, st, fr):
                if isinstance(target, ast.Subscript) and base.kind == "a" and base.args[1] == "__dict__":
                    stores.append((value, fr.fi.loc(target)))
        fl = F(prog)
        fl.analyze(m)
        for r in fl.calls.values():
            if r.func.kind == "a" and r.func.args[1] in ("update", "__init__") and r.func.args[0] is not SELF:
                upd.append(r)
        attr_ok = any(mentions_self_dict(v) for v, _ in stores) or any(mentions_self_dict(a) for r in upd for a in r.args)
        items_ok = any(mentions_items(a) for r in upd for a in r.args)
        if not attr_ok:
            ctx.violate("reset", f"{n}:attrs", m.loc(), f"Config.{n} does not carry over the protections and options")
        elif not items_ok:
            ctx.violate("reset", f"{n}:items", m.loc(), f"Config.{n} does not carry over the items")
        else:
            ctx.ok("reset", 2)


def mentions_self_dict(v):
    return any(t is T("a", SELF, "__dict__") for t in subterms(v))


def mentions_items(v):
    return any(t.kind == "dict" and SELF in t.args[1:] or t.kind == "a" and t.args[0] is SELF and t.args[1] == "items" for t in subterms(v))


def check_raw(ctx, prog, cls):
    """dict.__setitem__(cfg, ...) and the like outside the class."""
    inside = {id(m.node) for c in prog.subclasses(cls.qualname) for m in c.methods.values()}
    n = 0
    for mod in prog.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Call):
                d = dotted(node.func) or ""
                if d.startswith("dict.") and d.split(".")[-1] in MUTATORS or d.startswith("object.__setattr__"):
                    n += 1
                    p = node
                    ok = False
                    while p is not None:
                        if id(p) in inside:
                            ok = True
                        if isinstance(p, ast.ClassDef) and p is cls.node:
                            ok = True
                        p = getattr(p, "_parent", None)
                    if not ok:
                        ctx.violate("raw", f"{mod.name}:{d}", f"{mod.relpath}:{node.lineno}", f"{d} applied outside the configuration class bypasses its protections")
                    else:
                        ctx.ok("raw")
